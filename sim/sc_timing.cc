// C14: a holder answers decapsulation requests of network peers (and makes encapsulations and key generations of its own); the
// simulated clock advances by the exact trace of each call: executed basic blocks, accessed addresses, operands of divisions and
// string instructions, ranges and outcomes of library block operations. Calls that differ in secrets only must have equal traces.
#include "libs.h"
#include "os.h"
#include "scenario.h"
#include "damage.h"
#include <sys/mman.h>
#include <fstream>
extern void (*cmp_hook)(const void* a, const void* b, size_t n, size_t firstdiff);
extern "C" long sim_onstack(void* fn, long* args, void* top);
asm(R"(
.text
.globl sim_onstack
.type sim_onstack,@function
sim_onstack:
  push %rbp; push %rbx
  mov %rsp,%rbp
  mov %rdx,%rsp
  mov %rdi,%rax
  mov %rsi,%r10
  mov 0(%r10),%rdi; mov 8(%r10),%rsi; mov 16(%r10),%rdx; mov 24(%r10),%rcx
  xor %ebx,%ebx
  call *%rax
  mov %rbp,%rsp
  pop %rbx; pop %rbp
  ret
.size sim_onstack,.-sim_onstack
)");
static const size_t TR = 1ull << 30, STK = 1 << 20; static uint64_t* trbuf; static u8 *stk, *area; static uint64_t** trpos;
static std::string rho_fix; static int sha_calls;
static void emit(uint64_t v) { *(*trpos)++ = v; }
static void on_access(uintptr_t a, unsigned n, bool w, void*) { if (trpos && cur && cur->inlib) { emit(a); emit((uint64_t)n << 1 | w); } }
static void on_cmp(const void* a, const void* b, size_t n, size_t d) { if (trpos && cur && cur->inlib) { emit((uintptr_t)a); emit((uintptr_t)b); emit(n); emit(d); } }
struct Base { std::vector<uint64_t> t; std::string what; Bytes in; };
struct Req { int peer; std::string what; Bytes ct; int key; };
struct Timing : Scenario {
  struct Build { std::string flavor; Kem* k[2][5] = {}; }; std::vector<Build> builds; std::map<Lib*, uint64_t**> pos; std::map<Lib*, std::map<uint64_t, std::string>> sites;
  void load() override {
    for (const char* f : {"trace", "traceos", "traceo0", "traceclangs", "traceclang1", "traceclang3", "tracewhole", "traceclangwholes", "traceclangwhole2"}) { Build b; b.flavor = f; bool any = false; for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) if (have_lib(std::string(f) + (i ? "_avx2_" : "_ref_") + std::to_string(K) + "_linux.so")) { any = true; Kem* k = b.k[i][K] = kem(f, i, K); pos[k->lib] = ((uint64_t * *(*)()) k->lib->sym("sim_tr_get"))(); } if (any) builds.push_back(b); }
    trbuf = (uint64_t*)mmap((void*)0x300000000000ull, TR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    stk = (u8*)mmap((void*)0x310000000000ull, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); area = (u8*)mmap((void*)0x320000000000ull, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (trbuf == MAP_FAILED || stk == MAP_FAILED || area == MAP_FAILED) internal_error("trace memory"); for (auto& p : pos) *p.second = trbuf; access_hook = on_access; cmp_hook = on_cmp; }
  double cpu_limit() override { return 60; }
  Kem* k = nullptr; std::map<std::string, Base> base; size_t shift = 0; int64_t busy_until = 0;
  std::string site(Lib* l, const uint64_t* t, size_t i, size_t n) {
    auto& m = sites[l]; if (m.empty()) { std::ifstream f(l->path + ".sites"); std::string line; m[0] = "?"; while (std::getline(f, line)) { size_t q = line.find(' '); m[strtoull(line.c_str(), 0, 10)] = line.substr(q + 1); } }
    for (size_t j = std::min(i + 1, n); j-- > 0;) { int64_t v = (int64_t)t[j]; if (v < 0 && v > -1000000000ll) { auto it = m.find(-v); if (it != m.end()) return it->second + (j == i ? "" : " (+" + std::to_string(i - j) + ")"); } } return "?"; }
  // one traced call; returns the length of the trace, i.e. its duration
  size_t traced(Kem* kk, const char* op, void* fn, std::vector<const Bytes*> in, std::vector<std::pair<size_t, Bytes*>> out, int order[], int n, int& rc) {
    u8* p = area + 256 + shift; std::vector<u8*> ptr; for (auto* b : in) { memcpy(p, b->data(), b->size()); ptr.push_back(p); p += (b->size() + 127) & ~63ull; } for (auto& o : out) { memset(p, 0xA7, o.first); ptr.push_back(p); p += (o.first + 127) & ~63ull; }
    long a[4] = {}; for (int i = 0; i < n; i++) a[i] = (long)ptr[order[i]];
    int st = draw(5); if (st) { cnt("fault.stale_stack"); u8* s = stk + STK - 131072; if (st == 1) memset(s, 0xff, 131072 - 64); else if (st == 2) memset(s, 0, 131072 - 64); else { Rng r(draw64()); if (st == 3) r.fill(s, 131072 - 64); else for (size_t i = 0; i < 131072 - 64; i += 8) *(uint64_t*)(s + i) = r.next() & 0x0fff0fff0fff0fffull; } }
    Term t; trpos = pos[kk->lib]; *trpos = trbuf; long r = 0; R->steps++; cnt((std::string("calls.") + op).c_str());
    bool ok = libcall(op, t, [&] { r = sim_onstack(fn, a, stk + STK - 64); }); size_t len = *trpos - trbuf; trpos = nullptr; if (!ok) violation("terminated", "%s: %s terminated the process", kk->name.c_str(), op); rc = (int)r;
    for (size_t i = 0; i < out.size(); i++) out[i].second->assign(ptr[in.size() + i], ptr[in.size() + i] + out[i].first);
    cnt("trace.entries", (int64_t)len); now() += (int64_t)len; return len; }
  void compare(Kem* kk, const std::string& group, const std::string& what, size_t len, const char* label) {
    auto it = base.find(group); if (it == base.end()) { base[group] = {std::vector<uint64_t>(trbuf, trbuf + len), what, {}}; cnt("groups"); return; }
    cnt("checked.traces"); cnt((std::string("checked.") + label).c_str()); auto& b = it->second; size_t n = std::min(len, b.t.size()); if (len == b.t.size() && !memcmp(trbuf, b.t.data(), len * 8)) return;
    size_t i = 0; while (i < n && trbuf[i] == b.t[i]) i++;
    auto val = [&](const uint64_t* t, size_t m) { if (i >= m) return std::string("nothing"); int64_t v = (int64_t)t[i]; char x[200]; if (v < 0 && v > -1000000000ll) snprintf(x, sizeof x, "code at %s", site(kk->lib, t, i, m).c_str()); else snprintf(x, sizeof x, "address or operand 0x%lx after %s", v, site(kk->lib, t, i, m).c_str()); return std::string(x); };
    violation("timing", "%s %s: the time differs between [%s] (%zu trace entries) and [%s] (%zu): at entry %zu %s, before %s", kk->name.c_str(), label, what.c_str(), len, b.what.c_str(), b.t.size(), i, val(trbuf, len).c_str(), val(b.t.data(), b.t.size()).c_str()); }
  // ---------------------------------------------------------------- the three operations
  void dec(Kem* kk, const Bytes& sk, const Bytes& ct, const std::string& group, const std::string& what, Bytes* ss = nullptr) { Bytes o; int rc; int ord[] = {2, 1, 0}; size_t len = traced(kk, "dec", (void*)kk->dec, {&sk, &ct}, {{32, &o}}, ord, 3, rc); if (ss) *ss = o; if (!group.empty()) { Bytes x; compare(kk, group + std::to_string(rc), what, len, "dec"); rcs[group].insert(rc); if (rcs[group].size() > 1) violation("timing", "%s dec reports %d for [%s], another value before", kk->name.c_str(), rc, what.c_str()); } }
  std::map<std::string, std::set<int>> rcs;
  void enc(Kem* kk, const Bytes& pk, const Bytes* m, const std::string& group, const std::string& what, Bytes* ct = nullptr) { Bytes c, s; int rc; size_t len; if (m) { int ord[] = {2, 3, 0, 1}; len = traced(kk, "enc_derand", (void*)kk->enc_derand, {&pk, m}, {{kk->ctb, &c}, {32, &s}}, ord, 4, rc); } else { int ord[] = {1, 2, 0}; len = traced(kk, "enc", (void*)kk->enc, {&pk}, {{kk->ctb, &c}, {32, &s}}, ord, 3, rc); } if (ct) *ct = c; if (!group.empty()) compare(kk, group + (m ? "d" : "r"), what, len, "enc"); }
  void keygen(Kem* kk, const Bytes* coins, const Bytes& rho, const std::string& group, const std::string& what, Bytes* pk = nullptr, Bytes* sk = nullptr) {
    Bytes p, s; int rc; size_t len; rho_fix.assign(rho.begin(), rho.end()); sha_calls = 0; if (coins) { int ord[] = {1, 2, 0}; len = traced(kk, "keypair_derand", (void*)kk->keypair_derand, {coins}, {{kk->pkb, &p}, {kk->skb, &s}}, ord, 3, rc); } else { int ord[] = {0, 1}; len = traced(kk, "keypair", (void*)kk->keypair, {}, {{kk->pkb, &p}, {kk->skb, &s}}, ord, 2, rc); } rho_fix.clear();
    if (Bytes(p.end() - 32, p.end()) != rho) { cnt("keygen.matrix_seed_not_controlled"); return; } if (pk) *pk = p; if (sk) *sk = s; if (!group.empty()) compare(kk, group + (coins ? "d" : "r"), what, len, "keygen"); }
  // ---------------------------------------------------------------- material
  struct Key { Bytes pk, sk; std::string what; std::vector<Bytes> cts; };
  std::vector<Key> keys; Bytes rho;
  model::Poly poly(int kind, int eta, Rng& r) { model::Poly p; int c = kind == 1 ? eta : kind == 2 ? -eta : 0; for (int i = 0; i < 256; i++) { int v = c; switch (kind) { case 0: v = 0; for (int j = 0; j < eta; j++) v += (int)(r.next() & 1) - (int)(r.next() & 1); break; case 4: v = r.below(8) ? 0 : (r.below(2) ? eta : -eta); break; case 5: v = i & 1 ? eta : -eta; break; case 6: v = r.below(3329); break; case 7: v = r.below(2) ? 1664 : 1665; break; } p[i] = (v % 3329 + 3329) % 3329; } return p; }
  Key make_key() {
    const model::Params& P = *k->P; static const char* N[] = {"sampled", "all +eta", "all -eta", "zero", "sparse", "alternating", "uniform", "half q"}; int ks = draw(8), ke = draw(8); Rng r(draw64()); model::Vec s, e; for (int i = 0; i < P.k; i++) { s.push_back(poly(ks, P.eta1, r)); e.push_back(poly(ke, P.eta1, r)); } Key q; Bytes z = blob(32); model::keypair_from(P, rho.data(), s, e, z.data(), q.pk, q.sk); q.what = std::string("s ") + N[ks] + ", e " + N[ke]; cnt("keys.made"); return q; }
  Bytes damaged_sk(const Bytes& sk, std::string& w) { Bytes d = sk; std::vector<const Bytes*> o; for (auto& q : keys) if (q.sk != sk) o.push_back(&q.sk); w = damage(d, o); size_t at = 384 * k->K * 2; memcpy(&d[at], &sk[at], 32); cnt("fault.storage.damaged_secret_key"); return d; }
  std::deque<Req> queue; std::vector<Req> history; int peers_left = 0; bool damaged_keys = false; char* qtag = nullptr;
  std::map<int, int64_t> answered;
  void peer(int id, int n) {
    while (n-- > 0) {
      sleep_until(now() + 1 + (int64_t)drawlog(1u << 22)); Req q; q.peer = id; q.key = draw((uint32_t)keys.size()); Key& key = keys[q.key]; const model::Params& P = *k->P; std::vector<const Bytes*> oth; for (auto& h : history) if (h.ct.size() == k->ctb) oth.push_back(&h.ct); if (oth.size() > 4) oth.erase(oth.begin(), oth.end() - 4);
      int kind = draw(8); auto honest = [&](Key& kk) { Bytes m = blob(32), c, s; model::enc(P, kk.pk, m.data(), c, s); return c; };
      switch (kind) {
        case 0: case 1: q.ct = honest(key); q.what = "honest"; break;
        case 2: case 3: q.ct = honest(key); q.what = "damaged by " + damage(q.ct, oth); break;
        case 4: q.ct = honest(keys[draw((uint32_t)keys.size())]); q.what = "for some key"; break;
        case 5: if (!history.empty()) { auto& h = history[draw((uint32_t)history.size())]; q.ct = h.ct; q.what = "replayed"; if (draw(2)) { q.what += "+" + damage(q.ct, oth); } cnt("fault.net.replay"); break; }
        case 6: q.ct = blob(k->ctb); q.what = "made up"; break;
        case 7: q.ct = honest(key); { size_t a = draw(3) == 2 ? 0 : k->ctb - 1 - (draw(2) ? 0 : draw((uint32_t)k->ctb)); q.ct[a] ^= 1 << draw(8); q.what = "one bit of byte " + std::to_string(a); } cnt("fault.damage.one_bit"); break; }
      cnt(kind < 2 ? "requests.honest" : "requests.dishonest"); history.push_back(q); if (draw(6) == 5 && !queue.empty()) { queue.push_front(q); cnt("fault.net.reorder"); } else queue.push_back(q); if (draw(8) == 7) { queue.push_back(q); cnt("fault.net.duplicate"); } sigmix(hashb(q.ct)); wake_all(this); }
    peers_left--; wake_all(this); }
  void other_work() {
    switch (draw(5)) {
      case 0: { std::string g = "enc" + std::to_string(encpk); Bytes pk = encpks[encpk].first; Bytes m = blob(32); ev("enc derand"); enc(k, pk, &m, g, encpks[encpk].second + ", message " + hexs(m)); } break;
      case 1: { std::string g = "enc" + std::to_string(encpk); Ledger l; set_ledger(cur, &l); ev("enc"); enc(k, encpks[encpk].first, nullptr, g, encpks[encpk].second + ", system coins"); set_ledger(cur, nullptr); } break;
      case 2: { Bytes c = blob(64), p, s; ev("keygen derand"); keygen(k, &c, rho, "keygen", "coins " + hexs(c), &p, &s); if (!p.empty() && draw(3) == 2 && keys.size() < 12) keys.push_back({p, s, "generated"}); } break;
      case 3: { Ledger l; set_ledger(cur, &l); ev("keygen"); keygen(k, nullptr, rho, "keygen", "system coins"); set_ledger(cur, nullptr); } break;
      case 4: if (draw(2)) encpk = draw((uint32_t)encpks.size()); else { Kem* o = nullptr; for (auto& b : builds) if (b.k[draw(2)][2]) o = b.k[k->impl][2 + draw(3)]; if (o && o != k) { Bytes c = blob(64), p, s; int rc; int ord[] = {1, 2, 0}; cnt("other_parameter_set"); traced(o, "keypair_derand", (void*)o->keypair_derand, {&c}, {{o->pkb, &p}, {o->skb, &s}}, ord, 3, rc); } } break; } }
  std::vector<std::pair<Bytes, std::string>> encpks; int encpk = 0;
  void holder(int other) {
    while (peers_left || !queue.empty()) {
      if (queue.empty()) { block_on(this); continue; } Req q = queue.front(); queue.pop_front(); if (draw(12) == 11) { cnt("fault.net.drop"); continue; }
      Bytes sk = keys[q.key].sk; std::string w = q.what + ", key " + std::to_string(q.key) + " (" + keys[q.key].what; if (damaged_keys && draw(4) == 3) { std::string d; sk = damaged_sk(sk, d); w += ", damaged in storage by " + d; } w += ")";
      ev("dec key %d: %s", q.key, q.what.c_str()); dec(k, sk, q.ct, "dec", w); for (int w = 0; w < other && draw(4); w++) other_work(); } }
  void run() override {
    os_default(); auto& b = builds[draw((uint32_t)builds.size())]; k = nullptr; while (!k) k = b.k[draw(2)][2 + draw(3)]; cnt(("build." + b.flavor + (k->impl ? ".avx2" : ".ref")).c_str()); shift = draw(2) ? draw(64) : 0; rho = blob(32); damaged_keys = draw(3) == 2; sigmix(hashbytes(k->name.data(), k->name.size()));
    int np = 1 + draw(3), each = 2 + draw(6), other = draw(4), nk = 1 + draw(5); for (int i = 0; i < nk; i++) keys.push_back(make_key());
    int ne = 1 + draw(3); for (int i = 0; i < ne; i++) { Bytes pk = keys[draw((uint32_t)keys.size())].pk; std::string w = "public key"; if (draw(3) == 2) { pk = blob(k->pkb); w = "made-up public key"; } else if (draw(3) == 2) { std::vector<const Bytes*> o; for (auto& q : keys) o.push_back(&q.pk); w += " damaged by " + damage(pk, o); } encpks.push_back({pk, w}); }
    sample("%s, %d keys with one matrix, %d peers with %d requests, other work %d, stored keys %s", k->name.c_str(), nk, np, each, other, damaged_keys ? "may be damaged" : "intact"); peers_left = np;
    spawn("holder", [this, other] { 
      { Bytes c(64, 1), p, s, m(32, 2), ct; Ledger l; set_ledger(cur, &l); keygen(k, &c, rho, "", "", &p, &s); keygen(k, nullptr, rho, "", ""); enc(k, keys[0].pk, &m, "", "", &ct); enc(k, keys[0].pk, nullptr, "", ""); dec(k, keys[0].sk, ct, "", ""); set_ledger(cur, nullptr); }   // one-time initialisation, if any, is over
      holder(other); });
    for (int i = 0; i < np; i++) spawn("peer" + std::to_string(i), [this, i, each] { peer(i, each); });
    schedule(); }
};
// the matrix seed is public: key generations are compared under one matrix seed, placed where the first hash output carries it
static std::map<Lib*, void (*)(u8*, const u8*, size_t)> real512;
#define SHA(IMPL) extern "C" __attribute__((noinline)) void __wrap_pqcrystals_kyber_fips202_##IMPL##_sha3_512(u8* o, const u8* in, size_t n) { Lib* l = lib_of((uintptr_t)__builtin_return_address(0)); if (!l) internal_error("hash call from outside"); auto& f = real512[l]; if (!f) *(void**)&f = l->sym("pqcrystals_kyber_fips202_" #IMPL "_sha3_512"); f(o, in, n); if (!rho_fix.empty() && !sha_calls++) memcpy(o, rho_fix.data(), 32); }
SHA(ref) SHA(avx2)
Scenario* sc_timing(const std::string&) { return new Timing; }
