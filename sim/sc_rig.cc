// C15 deterministic generators of the KAT rig under a failing cipher library; C16 the KAT generator on a failing disk.
#include "libs.h"
#include "os.h"
#include "scenario.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
// ------------------------------------------------------------ cipher library seam
static struct { void* (*ctx_new)(); int (*init)(void*, const void*, void*, const u8*, const u8*); int (*init2)(void*, const void*, const u8*, const u8*, const void*); int (*update)(void*, u8*, int*, const u8*, int); int (*fin)(void*, u8*, int*); const void* (*ecb)(); void (*ctx_free)(void*); } real;
static struct { long at = 0; int kind = 0; bool fired = false; int storm = 0; uint64_t calls = 0; } cf;     // cipher fault: at the at-th call
static bool evp_fault(const char* what) { cf.calls++; now() += 200; if (cf.storm > 0) { cf.storm--; return true; } if (cf.at > 0 && --cf.at == 0) { cf.fired = true; if (cf.kind & 1) cf.storm = 1 << 30; ev("cipher library: %s fails%s", what, cf.storm ? " (and keeps failing)" : ""); cnt((std::string("fault.cipher.") + what).c_str()); return true; } return false; }
extern "C" {
void* __wrap_EVP_CIPHER_CTX_new() { if (evp_fault("ctx_new")) return nullptr; return real.ctx_new(); }
int __wrap_EVP_EncryptInit_ex(void* c, const void* t, void* e, const u8* k, const u8* iv) { if (!c) terminate_current("crash: NULL cipher context"); if (evp_fault("init")) return 0; return real.init(c, t, e, k, iv); }
int __wrap_EVP_EncryptInit_ex2(void* c, const void* t, const u8* k, const u8* iv, const void* p) { if (!c) terminate_current("crash: NULL cipher context"); if (evp_fault("init")) return 0; return real.init2(c, t, k, iv, p); }
int __wrap_EVP_EncryptUpdate(void* c, u8* o, int* ol, const u8* i, int il) { if (!c) terminate_current("crash: NULL cipher context"); if (evp_fault("update")) { *ol = 0; if (cf.kind & 2) return -1; return 0; } return real.update(c, o, ol, i, il); }
int __wrap_EVP_EncryptFinal_ex(void* c, u8* o, int* ol) { if (!c) terminate_current("crash: NULL cipher context"); if (evp_fault("final")) { *ol = 0; return 0; } return real.fin(c, o, ol); }
void __wrap_ERR_print_errors_fp(void*) {}
}
static void bind_crypto(Lib* l) {
  *(void**)&real.ctx_new = l->sym("EVP_CIPHER_CTX_new"); *(void**)&real.init = l->sym("EVP_EncryptInit_ex"); *(void**)&real.init2 = l->sym("EVP_EncryptInit_ex2", false); *(void**)&real.update = l->sym("EVP_EncryptUpdate"); *(void**)&real.fin = l->sym("EVP_EncryptFinal_ex"); *(void**)&real.ecb = l->sym("EVP_aes_256_ecb"); *(void**)&real.ctx_free = l->sym("EVP_CIPHER_CTX_free");
  u8 k[32] = {}, b[16]; int n; void* c = real.ctx_new(); real.init(c, real.ecb(), nullptr, k, nullptr); real.update(c, b, &n, k, 16); real.ctx_free(c); }                    // initialises the cipher library before the first run
struct Image { std::vector<std::pair<Lib*, std::vector<Bytes>>> v; void take() { for (Lib* l : libs) { std::vector<Bytes> b; for (auto& r : l->rw) b.push_back(Bytes((u8*)r.first, (u8*)r.second)); v.push_back({l, b}); } } void restore() { for (auto& im : v) for (size_t i = 0; i < im.second.size(); i++) memcpy((void*)im.first->rw[i].first, im.second[i].data(), im.second[i].size()); } };
// ------------------------------------------------------------ C15
struct Drbg : Scenario {
  Lib* l; size_t xn; int (*sinit)(void*, u8*, u8*, unsigned long); int (*sexp)(void*, u8*, unsigned long); void (*rinit)(u8*, u8*, int); int (*rb)(u8*, unsigned long long); void (*upd)(u8*, u8*, u8*); Image img;
  struct X { int id; u8* st; bool live = false; model::Expander m; struct S { Bytes st; model::Expander m; }; std::vector<S> saved; };
  std::vector<X*> xs; model::Drbg d; bool dlive = false; size_t pos = 0; u8* base; int nextid = 0;
  double cpu_limit() override { return 120; }
  void load() override { l = load_lib("drbg.so", RTLD_NOW | RTLD_LOCAL); xn = *(unsigned*)l->sym("sim_sizeof_xof"); *(void**)&sinit = l->sym("seedexpander_init"); *(void**)&sexp = l->sym("seedexpander"); *(void**)&rinit = l->sym("randombytes_init"); *(void**)&rb = l->sym("randombytes"); *(void**)&upd = l->sym("AES256_CTR_DRBG_Update"); bind_crypto(l); img.take(); }
  u8* alloc(size_t n) { pos = (pos + 15) & ~15ull; u8* p = base + pos; pos += n; if (pos > (64u << 20)) internal_error("arena"); return p; }
  // a call with an armed cipher fault; false if the process terminated
  template <class F> bool call(const char* name, F f) {
    R->steps++; cf = {}; int arm = draw(5); if (arm == 4) { cf.at = 1 + (long)drawlog(draw(3) ? 12 : 3000); cf.kind = draw(4); } sigmix(hashbytes(name, strlen(name)) + cf.at);
    Term t; bool ok = libcall(name, t, f); bool fired = cf.fired; cf.at = 0; cf.storm = 0; cnt((std::string("calls.") + name).c_str());
    if (!ok) { ev("terminated: %s", t.how.c_str()); if (!fired) violation("terminated", "%s terminated the process (%s) although the cipher library worked", name, t.how.c_str()); if (t.how == "exit(0)") violation("hidden-failure", "%s ended the process with a success status after a cipher failure", name); cnt("outcome.terminated_on_cipher_failure"); died(); return false; }
    if (fired) { cnt("outcome.returned_after_cipher_failure"); after = " after the cipher library failed during the call"; } else after = ""; return true; }
  const char* after = "";
  void died() { img.restore(); cnt("fault.process_restart"); dlive = false; for (X* x : xs) { memset(x->st, 0xdd, xn); x->live = false; if (!x->saved.empty()) { auto& s = x->saved.back(); memcpy(x->st, s.st.data(), xn); x->m = s.m; x->live = true; cnt("expanders_resumed_after_restart"); } } }
  void same(const u8* g, const Bytes& w, const char* fmt, ...) { cnt("checked.bytes", (int64_t)w.size()); if (w.empty() || !memcmp(g, w.data(), w.size())) return; size_t i = 0; while (g[i] == w[i]) i++; char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, 300, fmt, ap); va_end(ap); violation(*after ? "wrong-bytes-after-cipher-failure" : "wrong-stream", "%s: byte %zu of %zu is %02x instead of %02x%s", b, i, w.size(), g[i], w[i], after); }
  void clean(const u8* g, size_t n, const char* what) { for (size_t i = 0; i < n; i++) if (g[i] != 0xA7) violation("out-of-bounds", "%s", what); }
  void xinit(X& x) {
    Bytes seed = blob(32), div = blob(8); uint64_t ml; switch (draw(7)) { case 0: ml = draw(64); break; case 1: ml = draw(5000); break; case 2: ml = 0xffffffffull - draw(3); break; case 3: ml = 0x100000000ull + (draw(2) ? draw(3) : draw64() >> draw(32)); break; case 4: ml = 16 * (1 + draw(20)) + draw(3) - 1; break; default: ml = drawlog(0xffffffffull); }
    Buf s(seed), v(div); int rc = 0; ev("x%d init maxlen %lu", x.id, ml); if (!call("seedexpander_init", [&] { rc = sinit(x.st, s.p, v.p, ml); })) return;
    if (ml >= 0x100000000ull) { cnt("refused.maxlen"); if (!rc) violation("not-refused", "seedexpander_init accepted the length limit %lu", ml); x.live = false; return; }
    if (rc) violation("refused", "seedexpander_init refused the length limit %lu (%d)", ml, rc); x.m.init(seed.data(), div.data(), ml); x.live = true; x.saved.clear(); }
  void xtake(X& x) {
    uint64_t rem = x.m.remaining, n; unsigned blk = 16 - x.m.pos; bool nul = draw(20) == 19;
    switch (draw(14)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = blk; break; case 3: n = blk + 1; break; case 4: n = blk ? blk - 1 : 15; break; case 5: n = 16 * draw(6) + blk; break; case 6: n = rem ? rem - 1 : 0; break; case 7: n = rem + 1; break; case 8: n = rem + drawlog(~0ull - rem); break; case 9: n = draw(3) ? draw(3000) : draw(300000); break; case 10: n = rem; break; default: n = draw(100); }
    if (n <= rem && n > (2u << 20)) n = draw(4) == 3 ? draw(2 << 20) : draw(3000); if (n <= rem && n > 100000 && draw(8)) n %= 4096;
    bool beyond = n > rem; size_t room = n > (4u << 20) || beyond ? 4096 : n; size_t p0 = pos; u8* o = alloc(room + 128) + 32; memset(o - 32, 0xA7, room + 64); Bytes before(x.st, x.st + xn); int rc = 0; ev("x%d take %lu of %lu%s", x.id, n, rem, nul ? " into NULL" : "");
    bool ok = call("seedexpander", [&] { rc = sexp(x.st, nul ? nullptr : o, n); }); 
    if (ok) {
      if (nul) { cnt("refused.null"); if (!rc) violation("not-refused", "seedexpander(NULL) reported success"); }
      else if (beyond) { cnt("refused.beyond_limit"); if (!rc) violation("not-refused", "seedexpander delivered %lu bytes with only %lu remaining", n, rem); clean(o - 32, room + 64, "a refused seedexpander request wrote to the buffer"); }
      else if (rc) { if (n < rem) violation("refused", "seedexpander refused %lu bytes with %lu remaining (%d)%s", n, rem, rc, after); clean(o - 32, room + 64, "a refused seedexpander request wrote to the buffer"); cnt("refused.exact_limit"); }
      else { Bytes w(n); x.m.take(w.data(), n); same(o, w, "seedexpander x%d, %lu bytes at offset of %lu remaining", x.id, n, rem); clean(o - 32, 32, "seedexpander wrote before its buffer"); clean(o + n, 32, "seedexpander wrote past its buffer"); cnt("delivered.expander", (int64_t)n); if (n > 70000) cnt("expander.long_requests"); } }
    pos = p0; }
  void xhuge(X& x) {   // carries into the upper counter bytes
    const size_t UNIT = 1 << 20; u8* b = (u8*)0x500000000000ull; size_t total = (size_t)(1 + draw(2)) * (128 << 20) + 160; int fd = (int)syscall(SYS_memfd_create, "z", 0); if (ftruncate(fd, UNIT)) internal_error("memfd"); for (size_t o = 0; o < total + UNIT; o += UNIT) if (mmap(b + o, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) internal_error("map"); close(fd);
    Bytes seed = blob(32), div = blob(8); Buf s(seed), v(div); int rc = -1; ev("x%d long stream", x.id); Term t; if (!libcall("seedexpander (long)", t, [&] { rc = sinit(x.st, s.p, v.p, 0xfffffff0ull); if (!rc) rc = sexp(x.st, b, total); })) violation("terminated", "seedexpander terminated (%s)", t.how.c_str()); if (rc) violation("refused", "seedexpander refused %zu bytes", total);
    x.m.init(seed.data(), div.data(), 0xfffffff0ull); x.m.remaining -= total; uint64_t blk = total / 16 - 1000; for (int i = 0; i < 4; i++) x.m.ctr[12 + i] = blk >> (8 * (3 - i)); Bytes w(16000); uint64_t keep = x.m.remaining; x.m.take(w.data(), w.size()); x.m.remaining = keep; same(b + blk * 16, w, "seedexpander, end of a request of %zu bytes", total); x.live = true; x.saved.clear(); cnt("expander.carry_stream"); }
  void rinit_() {
    Bytes e = blob(48), p = blob(48); bool pers = draw(2);
    if (draw(3) == 2) { model::Drbg t; u8 z[48] = {}; t.init(z, nullptr); int k = 1 + draw(16); for (int i = 0; i < 16; i++) { u8 want = i >= 16 - k ? 0xff : (u8)draw(256); if (i == 15) want -= draw(4); e[32 + i] = want ^ t.v[i] ^ (pers ? p[32 + i] : 0); } cnt("drbg.counter_near_carry"); }
    Buf eb(e), pb(p); int sec = draw(2) ? 256 : draw(512); ev("drbg init pers=%d", pers); if (!call("randombytes_init", [&] { rinit(eb.p, pers ? pb.p : nullptr, sec); })) return; d.init(e.data(), pers ? p.data() : nullptr); dlive = true; }
  void rtake() { size_t n; switch (draw(8)) { case 0: n = 0; break; case 1: n = 1 + draw(15); break; case 2: n = 16 * (1 + draw(8)); break; case 3: n = 16 * (1 + draw(8)) - 1 + 2 * draw(2); break; case 4: n = draw(6) == 5 ? draw(65537) : draw(2000); break; default: n = draw(200); }
    size_t p0 = pos; u8* o = alloc(n + 128) + 32; memset(o - 32, 0xA7, n + 64); int rc = 0; ev("drbg take %zu", n); if (call("randombytes", [&] { rc = rb(o, n); })) { if (rc) violation("refused", "randombytes(%zu) of the DRBG returned %d%s", n, rc, after); Bytes w(n); d.gen(w.data(), n); same(o, w, "DRBG request of %zu bytes", n); clean(o - 32, 32, "the DRBG wrote before its buffer"); clean(o + n, 32, "the DRBG wrote past its buffer"); cnt("delivered.drbg", (int64_t)n); if (*after) { /* the state must have advanced as specified too: the next requests show it */ } } pos = p0; }
  // thousands of small requests in one process, to the DRBG or to an expander, no failures
  void marathon() {
    int n = 300 + (int)drawlog(draw(3) == 2 ? 40000 : 6000); bool ex = draw(2); Rng r(draw64()); X& x = *xs[0]; if (ex) { for (int i = 0; i < 9 && !(x.live && x.m.remaining > 2000000); i++) xinit(x); if (!x.live) return; } else for (int i = 0; i < 9 && !dlive; i++) rinit_(); if (!ex && !dlive) return;
    ev("%d requests in a row to the %s", n, ex ? "expander" : "DRBG"); cnt(ex ? "expander.marathons" : "drbg.marathons"); size_t p0 = pos; u8* o = alloc(256); after = "";
    for (int i = 0; i < n; i++) { size_t k = r.next() % (ex ? 50 : 40); if (ex && k >= x.m.remaining) break; memset(o, 0xA7, 256); int rc = 0; Term t; R->steps++;
      if (!libcall(ex ? "seedexpander" : "randombytes", t, [&] { rc = ex ? sexp(x.st, o + 32, k) : rb(o + 32, k); })) violation("terminated", "request %d in a row terminated the process (%s) although the cipher library worked", i + 1, t.how.c_str());
      if (rc) violation("refused", "request %d in a row, of %zu bytes, returned %d", i + 1, k, rc); Bytes w(k); if (ex) x.m.take(w.data(), k); else d.gen(w.data(), k);
      same(o + 32, w, "%s request %d in a row, of %zu bytes", ex ? "expander" : "DRBG", i + 1, k); clean(o, 32, "a request wrote before its buffer"); clean(o + 32 + k, 32, "a request wrote past its buffer"); }
    pos = p0; }
  void update_() { Bytes k = blob(32), v = draw(2) ? blob(16) : Bytes(16, 0xff), dt = blob(48); bool has = draw(2); v[15] -= draw(4); Buf kb(k), vb(v), db(dt); model::Drbg m; memcpy(m.key, k.data(), 32); memcpy(m.v, v.data(), 16); ev("update"); if (!call("AES256_CTR_DRBG_Update", [&] { upd(has ? db.p : nullptr, kb.p, vb.p); })) return; m.update(has ? dt.data() : nullptr); same(kb.p, Bytes(m.key, m.key + 32), "AES256_CTR_DRBG_Update, Key"); same(vb.p, Bytes(m.v, m.v + 16), "AES256_CTR_DRBG_Update, V"); }
  void run() override {
    base = (u8*)mmap((void*)0x270000000000ull, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    spawn("rig", [this] {
      int nx = 1 + draw(4), n = 5 + draw(60); sample("%d expanders, %d steps", nx, n); for (int i = 0; i < nx; i++) { X* x = new X; x->id = nextid++; x->st = alloc(xn); memset(x->st, 0xbb, xn); xs.push_back(x); }
      if (draw(700) == 1) xhuge(*xs[0]);
      if (draw(80) == 79) marathon();
      for (int j = 0; j < n; j++) { size_t am = arena_mark(); X& x = *xs[draw((uint32_t)xs.size())];
        switch (draw(12)) {
          case 0: xinit(x); break; case 1: rinit_(); break; case 2: update_(); break;
          case 3: if (x.live) { x.saved.push_back({Bytes(x.st, x.st + xn), x.m}); ev("x%d saved", x.id); } break;
          case 4: if (!x.saved.empty()) { auto& s = x.saved[draw((uint32_t)x.saved.size())]; if (draw(2)) x.st = alloc(xn); memcpy(x.st, s.st.data(), xn); x.m = s.m; x.live = true; ev("x%d rolled back", x.id); cnt("fault.expander_rolled_back"); } break;
          case 5: if (x.live) { X& y = *xs[draw((uint32_t)xs.size())]; if (&y != &x) { memcpy(y.st, x.st, xn); y.m = x.m; y.live = true; y.saved.clear(); cnt("fault.expander_copied"); ev("x%d copied to x%d", x.id, y.id); } } break;
          case 6: case 7: case 8: if (dlive) rtake(); else rinit_(); break;
          default: if (x.live) xtake(x); else xinit(x); }
        arena_reset(am); } });
    schedule(); }
};
// ------------------------------------------------------------ C16
struct SimHandle { std::string name; bool w; size_t pos = 0; FILE* f = nullptr; bool open = true; };
struct Disk { std::map<std::string, Bytes> files; std::vector<SimHandle*> hs; Bytes delivered; } disk;
enum FClass { F_OPEN_REQ_W, F_OPEN_RSP_W, F_OPEN_REQ_R, F_WRITE_REQ, F_WRITE_RSP, F_READ, F_CLOSE_REQ, F_CLOSE_RSP, F_OPEN_OTHER, F_N };
struct Plan { FClass c; int n; int kind; };
static std::vector<Plan> plans; static int seenops[F_N]; static int hard, soft, killed, opfailed; static bool full, eio_reads; static uint64_t diskops, killat; static std::string faultlog;
static bool is(const std::string& n, const char* suf) { size_t l = strlen(suf); return n.size() >= l && !n.compare(n.size() - l, l, suf); }
static Plan* due(FClass c) { now() += 20000; diskops++; if (killat && diskops == killat) { cnt("fault.killed_at_disk_operation"); killed = 1; ev("process killed at disk operation %lu", diskops); terminate_current("killed"); } int n = seenops[c]++; for (auto& p : plans) if (p.c == c && p.n == n) return &p; return nullptr; }
static void fault(const char* name, bool hardf) { cnt((std::string("fault.disk.") + name).c_str()); ev("disk: %s at operation %lu", name, diskops); faultlog += std::string(faultlog.empty() ? "" : ", ") + name; if (hardf) hard++; else soft++; if (hardf && strncmp(name, "read_damaged", 12) && strncmp(name, "file_trunc", 10)) opfailed++; sigmix(hashbytes(name, strlen(name)) + diskops); }
static FClass wcl(const std::string& n) { return is(n, ".req") ? F_WRITE_REQ : F_WRITE_RSP; }
static ssize_t k_write(SimHandle* h, const char* b, size_t n) {    // one write system call
  if (full) { errno = ENOSPC; return -1; } Plan* p = due(wcl(h->name)); size_t take = n;
  if (p) switch (p->kind % 5) { case 0: fault("write_enospc", true); full = true; errno = ENOSPC; return -1; case 1: fault("write_eio_once", true); errno = EIO; return -1; case 2: fault("write_short", false); take = std::max<size_t>(1, n / 3); break; case 3: fault("write_torn_enospc", true); full = true; take = n / 2; break; case 4: fault("write_edquot", true); full = true; errno = EDQUOT; return -1; }
  if (!take) { errno = ENOSPC; return -1; } Bytes& d = disk.files[h->name]; if (d.size() < h->pos + take) d.resize(h->pos + take); memcpy(d.data() + h->pos, b, take); h->pos += take; return (ssize_t)take; }
static ssize_t c_write(void* c, const char* b, size_t n) { SimHandle* h = (SimHandle*)c; size_t done = 0; if (!h->w) { errno = EBADF; return 0; } while (done < n) { ssize_t r = k_write(h, b + done, n - done); if (r < 0) break; done += r; } return (ssize_t)done; }      // as the C library does for files
static const char* const REC = "count = ";
static ssize_t c_read(void* c, char* b, size_t n) {
  SimHandle* h = (SimHandle*)c; if (eio_reads) { errno = EIO; return -1; } Plan* p = due(F_READ); Bytes& d = disk.files[h->name]; size_t left = d.size() > h->pos ? d.size() - h->pos : 0, take = std::min(left, n); bool dam = false;
  if (p) switch (p->kind % 8) {
    case 0: fault("read_eio", true); eio_reads = true; errno = EIO; return -1; case 1: fault("read_eio_once", true); errno = EIO; return -1; case 2: if (take > 1) { fault("read_short", false); take = 1 + take / 3; } break;
    case 3: if (left) { fault("file_truncated_while_reading", true); size_t keep = h->pos + (p->kind / 8) % (take + 1); d.resize(std::min(keep, d.size())); left = d.size() - h->pos; take = std::min(left, n); } break;
    default: if (take > 200 && is(h->name, ".req")) { memcpy(b, d.data() + h->pos, take); size_t o = (p->kind / 8) % (take - 160); char* q = (char*)memmem(b + o, take - o, p->kind % 8 == 7 ? REC : "seed = ", p->kind % 8 == 7 ? 8 : 7);       // find a record and damage it
        if (q && q + 110 < b + take) { dam = true; size_t v = p->kind / 8; switch (p->kind % 8) { case 4: { char* x = q + 7 + v % 96; *x = "0123456789ABCDEFabcdef"[v / 96 % 22]; fault("read_changed_seed_digit", false); } break; case 5: { char* x = q + 7 + v % 96; *x = "GZ \n*-"[v / 96 % 6]; fault("read_damaged_seed_digit", true); } break; case 6: q[v % 5] ^= 1 + v / 5 % 4; fault("read_damaged_seed_marker", true); break; case 7: q[v % 5] ^= 1 + v / 5 % 4; fault("read_damaged_count_marker", true); break; } } } }
  if (!dam) memcpy(b, d.data() + h->pos, take); h->pos += take; if (is(h->name, ".req")) disk.delivered.insert(disk.delivered.end(), b, b + take); return (ssize_t)take; }
static int c_close(void* c) { SimHandle* h = (SimHandle*)c; h->open = false; if (!h->w) return 0; Plan* p = due(is(h->name, ".req") ? F_CLOSE_REQ : F_CLOSE_RSP); if (p) { fault("close_fails_and_loses_data", true); Bytes& d = disk.files[h->name]; d.resize(d.size() - std::min<size_t>(d.size(), 512)); errno = EIO; return -1; } return 0; }
static int c_seek(void* c, off64_t* o, int wh) { SimHandle* h = (SimHandle*)c; off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)h->pos : (off64_t)disk.files[h->name].size(); if (b + *o < 0) { errno = EINVAL; return -1; } h->pos = (size_t)(b + *o); *o = (off64_t)h->pos; return 0; }
static FILE* d_fopen(const char* path, const char* mode) {
  std::string n = path; bool w = mode[0] == 'w' || mode[0] == 'a', plus = strchr(mode, '+'); FClass c = is(n, ".req") ? (w ? F_OPEN_REQ_W : F_OPEN_REQ_R) : is(n, ".rsp") ? F_OPEN_RSP_W : F_OPEN_OTHER; static const int E[] = {ENOENT, EACCES, ENOSPC, EMFILE, EROFS, ENOMEM};
  Plan* p = due(c); if (p) { fault(c == F_OPEN_REQ_R ? "open_for_reading_fails" : "open_for_writing_fails", true); errno = E[p->kind % 6]; return nullptr; }
  if (mode[0] == 'w') disk.files[n].clear(); else if (mode[0] == 'r' && !disk.files.count(n)) { errno = ENOENT; return nullptr; }
  SimHandle* h = new SimHandle; h->name = n; h->w = w || plus; h->pos = mode[0] == 'a' ? disk.files[n].size() : 0; if (!w && is(n, ".req")) disk.delivered.clear(); disk.hs.push_back(h); cookie_io_functions_t io{}; io.read = c_read; io.write = c_write; io.seek = c_seek; io.close = c_close; h->f = fopencookie(h, mode, io); ev("open %s %s", path, mode); errno = 0; return h->f; }
static SimHandle* handle(FILE* f) { for (auto* h : disk.hs) if (h->f == f && h->open) return h; return nullptr; }
extern "C" {
int __wrap_fileno(FILE* f) { for (size_t i = 0; i < disk.hs.size(); i++) if (disk.hs[i]->f == f && disk.hs[i]->open) return 5000 + (int)i; return fileno(f); }
int __wrap_fsync(int) { return 0; } int __wrap_fdatasync(int) { return 0; }
int __wrap_rename(const char* a, const char* b) { auto i = disk.files.find(a); if (i == disk.files.end()) { errno = ENOENT; return -1; } disk.files[b] = i->second; disk.files.erase(a); return 0; }
int __wrap_remove(const char* a) { if (!disk.files.erase(a)) { errno = ENOENT; return -1; } return 0; } int __wrap_unlink(const char* a) { return __wrap_remove(a); }
FILE* __wrap_freopen(const char* p, const char* m, FILE* f) { if (SimHandle* h = handle(f)) { fclose(f); return d_fopen(p, m); } return nullptr; }
}
struct Kat : Scenario {
  struct K { Lib* l; int (*main)(); std::string req; std::vector<std::pair<std::string, std::string>> rec; Bytes rsp; int k; std::string reqn, rspn; } ks[5]; Image img; std::map<std::string, std::string> cache;
  double cpu_limit() override { return 40; }
  static std::string up(const Bytes& b) { std::string s = model::hex(b.data(), b.size()); for (auto& c : s) c = toupper(c); return s; }
  static std::string answer(int k, const Bytes& seed) { const model::Params& P = model::params(k); model::Drbg d; d.init(seed.data(), nullptr); u8 c[64], m[32]; Bytes pk, sk, ct, ss; d.gen(c, 64); model::keygen(P, c, pk, sk); d.gen(m, 32); model::enc(P, pk, m, ct, ss); return "seed = " + up(seed) + "\npk = " + up(pk) + "\nsk = " + up(sk) + "\nct = " + up(ct) + "\nss = " + up(ss) + "\n\n"; }
  void load() override {
    for (int k = 2; k <= 4; k++) { K& q = ks[k]; q.k = k; q.l = load_lib("rig_" + std::to_string(k) + ".so", RTLD_NOW | RTLD_LOCAL); *(void**)&q.main = q.l->sym("sim_kat_main"); const model::Params& P = model::params(k); std::string base = "PQCkemKAT_" + std::to_string(P.skb()); q.reqn = base + ".req"; q.rspn = base + ".rsp";
      u8 e[48]; for (int i = 0; i < 48; i++) e[i] = i; model::Drbg d; d.init(e, nullptr); for (int i = 0; i < 100; i++) { Bytes s(48); d.gen(s.data(), 48); q.req += "count = " + std::to_string(i) + "\nseed = " + up(s) + "\npk =\nsk =\nct =\nss =\n\n"; cache[std::to_string(k) + up(s)] = answer(k, s); } }
    bind_crypto(ks[2].l); img.take(); int fd = open("/dev/null", O_WRONLY); nul = fd; }
  int nul;
  // strict reading of what the program was given back: all requests, or nothing
  bool expected(K& q, std::string& out) { std::string t((char*)disk.delivered.data(), disk.delivered.size()); out = "# Kyber" + std::to_string(256 * q.k) + "\n\n"; size_t p = 0; int n = 0;
    for (; (p = t.find("count = ", p)) != std::string::npos; n++) { p += 8; size_t e = t.find('\n', p); if (e == std::string::npos) return false; std::string c = t.substr(p, e - p); for (char x : c) if (!isdigit(x)) return false; if (c.empty()) return false; if (t.compare(e + 1, 7, "seed = ")) return false; std::string h = t.substr(e + 8, 96); if (h.size() != 96 || t.size() < e + 105 || t[e + 104] != '\n') return false; for (char x : h) if (!isxdigit(x)) return false;
      Bytes s(48); for (int i = 0; i < 48; i++) s[i] = (u8)strtol(h.substr(2 * i, 2).c_str(), nullptr, 16); auto ci = cache.find(std::to_string(q.k) + up(s)); out += "count = " + std::to_string(atoi(c.c_str())) + "\n" + (ci != cache.end() ? ci->second : answer(q.k, s)); }
    return n == 100; }
  void attempt(K& q, bool faulty) {
    plans.clear(); memset(seenops, 0, sizeof seenops); hard = soft = killed = opfailed = 0; full = eio_reads = false; diskops = 0; killat = 0; disk.delivered.clear(); faultlog.clear(); cf = {}; for (auto* h : disk.hs) h->open = false;
    if (faulty) { int n = 1 + draw(3); for (int i = 0; i < n; i++) { static const int W[] = {F_OPEN_REQ_W, F_OPEN_RSP_W, F_OPEN_REQ_R, F_WRITE_REQ, F_WRITE_REQ, F_WRITE_RSP, F_WRITE_RSP, F_WRITE_RSP, F_READ, F_READ, F_READ, F_READ, F_CLOSE_REQ, F_CLOSE_RSP}; FClass c = (FClass)W[draw(14)]; int nth = c == F_WRITE_RSP ? (draw(3) ? (int)draw(170) : (int)(q.k == 2 ? 78 : q.k == 3 ? 116 : 155) - (int)draw(6)) : c == F_WRITE_REQ || c == F_READ ? draw(5) : 0; plans.push_back({c, nth, (int)draw(1 << 20)}); }
      if (draw(6) == 5) killat = 1 + draw(draw(2) ? 20 : 170); if (draw(6) == 5) { cf.at = 1 + (long)drawlog(6000); cf.kind = draw(4); } }
    fopen_hook = d_fopen; Term t; int rc = -1; R->steps++; bool ok = libcall("PQCgenKAT_kem", t, [&] { rc = q.main(); }); uint64_t nop = diskops; 
    bool success = ok ? (rc & 0xff) == 0 : t.how == "exit(0)"; int h0 = hard;
    if (success) for (auto* h : disk.hs) if (h->open && h->f) { fflush(h->f); }               // at exit the C library flushes what was left open
    ev("generator %s rc=%d after %lu disk operations%s%s", ok ? "returned" : t.how.c_str(), rc, nop, faultlog.empty() ? "" : "; faults: ", faultlog.c_str()); cntmax("max.disk_operations", (int64_t)nop);
    if (!success) { if (!hard && !killed && !cf.fired) violation("spurious-failure", "the KAT generator failed (%s, %d) although no operation failed", ok ? "returned" : t.how.c_str(), rc); cnt(killed ? "outcome.killed" : "outcome.failure_reported"); img.restore(); for (auto* h : disk.hs) h->open = false; return; }
    cnt("outcome.success"); std::string want; Bytes& rq = disk.files[q.reqn]; Bytes& rs = disk.files[q.rspn]; const char* why = faultlog.empty() ? "" : " (injected: "; std::string inj = std::string(why) + faultlog + (faultlog.empty() ? "" : ")");
    if (hard > h0) violation("silent-failure", "the KAT generator reported success and then lost data%s", inj.c_str());
    if (std::string((char*)rq.data(), rq.size()) != q.req) if (faultlog.find("file_truncated") == std::string::npos) violation("request-file", "the KAT generator reported success but %s (%zu bytes) does not hold all requests%s", q.reqn.c_str(), rq.size(), inj.c_str());
    if (!expected(q, want)) violation("silent-failure", "the KAT generator reported success although not every request was read back%s", inj.c_str());
    if (want.size() != rs.size() || memcmp(want.data(), rs.data(), want.size())) { size_t i = 0; while (i < want.size() && i < rs.size() && (u8)want[i] == rs[i]) i++; violation("response-file", "the KAT generator reported success but %s is wrong from byte %zu (it has %zu bytes instead of %zu)%s", q.rspn.c_str(), i, rs.size(), want.size(), inj.c_str()); }
    if (opfailed) violation("silent-failure", "the KAT generator reported success although an operation on its files had failed%s", inj.c_str());
    cnt("checked.response_bytes", (int64_t)want.size()); img.restore(); for (auto* h : disk.hs) h->open = false; }
  void run() override { dup2(nul, 1); dup2(nul, 2); spawn("generator", [this] { K& q = ks[2 + draw(3)]; int n = draw(8) == 0 ? 0 : 1 + draw(2); sample("kyber%d, %d faulty attempts", q.k * 256, n); if (draw(3) == 2) disk.files[q.rspn] = rndblob(draw(5000)); if (draw(3) == 2) disk.files[q.reqn] = Bytes(q.req.begin(), q.req.end()); for (int i = 0; i < n; i++) attempt(q, true); if (n == 0 || draw(4) == 3) { attempt(q, false); cnt("runs.recovered_without_faults"); } }); schedule(); }
};
Scenario* sc_drbg(const std::string&) { return new Drbg; }
Scenario* sc_kat(const std::string&) { return new Kat; }
