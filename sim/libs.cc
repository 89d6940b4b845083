#include "libs.h"
#include "os.h"
#include "asan.h"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fstream>
#include <sstream>
std::vector<Lib*> libs;
extern "C" void* __tls_get_addr(void*);
static int phdr_cb(struct dl_phdr_info* i, size_t, void* arg) {
  Lib* l = (Lib*)arg; if ((uintptr_t)i->dlpi_addr != l->base) return 0;
  uintptr_t rlo = 0, rhi = 0; for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { rlo = l->base + p.p_vaddr; rhi = rlo + p.p_memsz; } }
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; uintptr_t a = l->base + p.p_vaddr, b = a + p.p_memsz;
    if (p.p_type == PT_LOAD) { l->lo = l->lo ? std::min(l->lo, a) : a; l->hi = std::max(l->hi, b); if (p.p_flags & PF_X) { l->xlo = a; l->xhi = b; }
      if (p.p_flags & PF_W) { uintptr_t s = a; if (rhi > s && rlo <= s) s = std::min(b, (rhi + 4095) & ~4095ul); if (s < b) l->rw.push_back({s, b}); } }
    if (p.p_type == PT_TLS) { l->tlsmod = i->dlpi_tls_modid; l->tlssz = p.p_memsz; l->tlsimg = (void*)a; l->tlsfilesz = p.p_filesz; } }
  return 1;
}
void* Lib::sym(const std::string& n, bool must) { void* p = dlsym(h, n.c_str()); if (!p && must) { fprintf(stderr, "missing symbol %s in %s\n", n.c_str(), path.c_str()); _exit(4); } return p; }
bool have_lib(const std::string& f) { return access((f[0] == '/' ? f : builddir + "/" + f).c_str(), R_OK) == 0; }
Lib* load_lib(const std::string& f, int flags) {
  Lib* l = new Lib; l->path = f[0] == '/' ? f : builddir + "/" + f; l->h = dlopen(l->path.c_str(), flags);
  if (!l->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
  struct link_map* m; dlinfo(l->h, RTLD_DI_LINKMAP, &m); l->base = m->l_addr; dl_iterate_phdr(phdr_cb, l);
  if (l->tlsmod) { size_t ti[2] = {l->tlsmod, 0}; l->tlsblk = (char*)__tls_get_addr(ti); }
  libs.push_back(l); return l;
}
Lib* lib_of(uintptr_t a) { for (Lib* l : libs) if (a >= l->lo && a < l->hi) return l; return nullptr; }
bool in_lib_rw(uintptr_t a) { for (Lib* l : libs) { for (auto& r : l->rw) if (a >= r.first && a < r.second) return true; if (l->tlsblk && a >= (uintptr_t)l->tlsblk && a < (uintptr_t)l->tlsblk + l->tlssz) return false; } return false; }
static uintptr_t rwlo, rwhi; static std::vector<uint8_t> rwmap;
void map_rw_pages() { rwlo = ~0ull; rwhi = 0; for (Lib* l : libs) for (auto& r : l->rw) { rwlo = std::min<uintptr_t>(rwlo, r.first & ~63ull); rwhi = std::max<uintptr_t>(rwhi, (r.second + 63) & ~63ull); } if (rwhi <= rwlo) { rwlo = rwhi = 0; return; } if (rwhi - rwlo > (1ull << 31)) internal_error("libraries too far apart"); rwmap.assign((rwhi - rwlo) / 64 + 1, 0); for (Lib* l : libs) for (auto& r : l->rw) for (uintptr_t a = r.first & ~63ull; a < r.second; a += 64) rwmap[(a - rwlo) / 64] = 1; }
bool rw_page(uintptr_t a) { return a >= rwlo && a < rwhi && rwmap[(a - rwlo) / 64]; }
void load_instructions(Lib* l) {
  if (!l->ins.empty()) return; std::ifstream f(l->path + ".ins"); std::string line;
  while (std::getline(f, line)) { std::istringstream s(line); std::string fn; s >> fn; std::vector<uint32_t> v; uint32_t x; while (s >> std::hex >> x) v.push_back(x); if (!v.empty()) l->ins.push_back({fn, v}); }
  if (l->ins.empty()) { fprintf(stderr, "no instruction list for %s\n", l->path.c_str()); _exit(4); }
}
namespace sim {
void tls_switch(Task* from, Task* to) {
  for (size_t i = 0; i < libs.size(); i++) { Lib* l = libs[i]; if (!l->tlsblk) continue;
    if (from) { if (from->tls.size() < libs.size()) from->tls.resize(libs.size()); from->tls[i].assign(l->tlsblk, l->tlsblk + l->tlssz); }
    if (to) { if (to->tls.size() > i && !to->tls[i].empty()) memcpy(l->tlsblk, to->tls[i].data(), l->tlssz); else { memset(l->tlsblk, 0, l->tlssz); memcpy(l->tlsblk, l->tlsimg, l->tlsfilesz); } } }
}
}
void bind_hash(Lib* l, const char* impl, Hash& h) {
  std::string n = std::string("pqcrystals_kyber_fips202_") + impl + "_"; const char* S[2] = {"shake128", "shake256"};
  for (int i = 0; i < 2; i++) { std::string p = n + S[i];
    *(void**)&h.shake_init[i] = l->sym(p + "_init"); *(void**)&h.shake_absorb[i] = l->sym(p + "_absorb"); *(void**)&h.shake_finalize[i] = l->sym(p + "_finalize"); *(void**)&h.shake_squeeze[i] = l->sym(p + "_squeeze");
    *(void**)&h.shake_absorb_once[i] = l->sym(p + "_absorb_once"); *(void**)&h.shake_squeezeblocks[i] = l->sym(p + "_squeezeblocks"); *(void**)&h.shake[i] = l->sym(p); }
  *(void**)&h.sha3[0] = l->sym(n + "sha3_256"); *(void**)&h.sha3[1] = l->sym(n + "sha3_512");
  unsigned* q = (unsigned*)l->sym("sim_sizeof_keccak_state", false); h.st = q ? *q : 208; h.x4 = !strcmp(impl, "avx2");
  if (h.x4) { q = (unsigned*)l->sym("sim_sizeof_keccakx4_state", false); h.stx4 = q ? *q : 800;
    for (int i = 0; i < 2; i++) { std::string p = std::string("pqcrystals_kyber_fips202x4_avx2_") + S[i] + "x4"; *(void**)&h.x4_absorb_once[i] = l->sym(p + "_absorb_once"); *(void**)&h.x4_squeezeblocks[i] = l->sym(p + "_squeezeblocks"); *(void**)&h.x4_shake[i] = l->sym(p); } }
}
static std::map<std::string, Kem*> kems; static const char* IMPL[2] = {"ref", "avx2"};
Kem* kem(const std::string& flavor, int impl, int K, const std::string& rb) {
  std::string f = flavor + "_" + IMPL[impl] + "_" + std::to_string(K) + "_" + rb + ".so"; auto it = kems.find(f); if (it != kems.end()) return it->second;
  Kem* k = new Kem; k->lib = load_lib(f, RTLD_NOW | RTLD_LOCAL); k->impl = impl; k->K = K; k->rb = rb; k->name = flavor + "/" + IMPL[impl] + "/" + std::to_string(K * 256) + (rb == "linux" ? "" : "/" + rb); k->P = &model::params(K);
  std::string n = "pqcrystals_kyber" + std::to_string(K * 256) + "_" + IMPL[impl] + "_";
  *(void**)&k->keypair = k->lib->sym(n + "keypair"); *(void**)&k->keypair_derand = k->lib->sym(n + "keypair_derand"); *(void**)&k->enc = k->lib->sym(n + "enc"); *(void**)&k->enc_derand = k->lib->sym(n + "enc_derand"); *(void**)&k->dec = k->lib->sym(n + "dec");
  *(void**)&k->randombytes = k->lib->sym("randombytes"); bind_hash(k->lib, IMPL[impl], k->hash); k->pkb = k->P->pkb(); k->skb = k->P->skb(); k->ctb = k->P->ctb();
  return kems[f] = k;
}
// buffers with canaries, from a per-task arena at a fixed address; reset at the start of each convenience call, so that
// successive calls of one task reuse the same addresses
static const size_t AR = 1 << 18; static std::map<int, size_t> apos; static u8* abase; static const int MAXT = 2000;
static u8* aalloc(size_t n) { if (!abase) { abase = (u8*)mmap((void*)0x220000000000ull, AR * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (abase == MAP_FAILED) internal_error("arena"); }
  int id = cur ? cur->id + 1 : 0; if (id >= MAXT) internal_error("too many tasks"); size_t& p = apos[id]; p = (p + 63) & ~63ull; u8* r = abase + AR * id + p; p += n; if (p > AR) internal_error("task arena full"); return r; }
typedef ArenaScope ArenaMark;
ArenaScope::ArenaScope() { id = cur ? cur->id + 1 : 0; p = apos[id]; }
ArenaScope::~ArenaScope() { if (shadow_on && apos[id] > p) { size_t q = (p + 63) & ~63ull; shadow_set(abase + AR * id + q, (apos[id] - q + 7) & ~7ull, 0xfb); } apos[id] = p; }
size_t arena_mark() { return apos[cur ? cur->id + 1 : 0]; } void arena_reset(size_t p) { apos[cur ? cur->id + 1 : 0] = p; }
bool canary_checks = false;
static const int CAN = 64;
Buf::Buf(size_t n_) : n(n_) { u8* q = aalloc(n + 2 * CAN); memset(q, 0xC5, CAN); p = q + CAN; memset(p, 0xA7, n); memset(p + n, 0x5C, CAN); if (shadow_on) { shadow_set(q, (n + 2 * CAN + 7) & ~7ull, 0xfa); shadow_set(p, n, 0); } }
Buf::Buf(const Bytes& b) : Buf(b.size()) { if (n) memcpy(p, b.data(), n); }
void Buf::check(const char* what) { if (canary_checks) for (int i = 0; i < CAN; i++) { if (p[-CAN + i] != 0xC5) violation("out-of-bounds", "%s: byte %d before the buffer changed", what, CAN - i); if (p[n + i] != 0x5C) violation("out-of-bounds", "%s: byte %d after the buffer's end changed", what, i); } }
static int lrc; int last_rc() { return lrc; }
Side last_side_; const Side& last_side() { return last_side_; } int side_errno = 0;
static void unchanged(const Buf& b, const Bytes& v, const char* what) { if (canary_checks && memcmp(b.p, v.data(), v.size())) violation("input-modified", "%s changed during the call", what); }
bool call_keypair_derand(Kem* k, const Bytes& coins, Bytes& pk, Bytes& sk) { ArenaMark m; Buf c(coins), p(k->pkb), s(k->skb); Term t; int rc = 0; cnt("calls.keypair"); if (!libcall("keypair_derand", t, [&] { rc = k->keypair_derand(p.p, s.p, c.p); })) { lrc = -999; return false; } lrc = rc; p.check("keypair pk"); s.check("keypair sk"); c.check("keypair coins"); unchanged(c, coins, "coins"); pk = p.bytes(); sk = s.bytes(); return true; }
bool call_enc_derand(Kem* k, const Bytes& pk, const Bytes& msg, Bytes& ct, Bytes& ss) { ArenaMark m; Buf p(pk), c(msg), o(k->ctb), s(32); Term t; int rc = 0; cnt("calls.enc"); if (!libcall("enc_derand", t, [&] { rc = k->enc_derand(o.p, s.p, p.p, c.p); })) { lrc = -999; return false; } lrc = rc; o.check("enc ct"); s.check("enc ss"); p.check("enc pk"); unchanged(p, pk, "public key"); unchanged(c, msg, "coins"); ct = o.bytes(); ss = s.bytes(); return true; }
bool call_dec(Kem* k, const Bytes& sk, const Bytes& ct, Bytes& ss) { ArenaMark m; Buf s(sk), c(ct), o(32); Term t; int rc = 0; cnt("calls.dec"); unsigned mx0 = 0x1f80, mx = mx0; if (!libcall("dec", t, [&] { os_trace = 0; int64_t t0 = now(); asm volatile("ldmxcsr %0" ::"m"(mx0)); errno = side_errno; rc = k->dec(o.p, c.p, s.p); last_side_.err = errno; asm volatile("stmxcsr %0" : "=m"(mx)); last_side_.fp = mx & 0x3f; last_side_.trace = os_trace; last_side_.time = now() - t0; })) { lrc = -999; return false; } lrc = rc; o.check("dec ss"); c.check("dec ct"); s.check("dec sk"); unchanged(s, sk, "secret key"); unchanged(c, ct, "ciphertext"); ss = o.bytes(); return true; }
