// C17, C19.
// C17: rejection sampling of the matrix under simulated random streams. The seam is the squeeze interface of the hash library:
// whatever block of a SHAKE128(rho||x||y) stream the code obtains, the simulator replaces it by the corresponding block of a
// simulated stream for that (rho, x, y), recognised by content, and may suspend or kill the calling thread at that point.
// C19: the same with extreme matrices, and with the SHAKE256 noise streams (seed, nonce) replaced as well, so that secrets, errors and
// masks take any values their distribution allows, however improbable.
// C20: both at once and all other entry points, on libraries in which every access is checked against the objects that exist.
#include "libs.h"
#include "scenario.h"
#include "os.h"
#include "ops.h"
#include "asan.h"
#include <cerrno>
#include <dlfcn.h>
struct Stream { unsigned rate = 168; uint8_t in[34]; Bytes sim; model::Keccak real{168}; size_t real_blocks = 0; bool substituted = false; size_t need = 0; int kind = 0; size_t served = 0; };
static std::map<Bytes, Stream*> by_in; static std::map<uint64_t, std::pair<Stream*, size_t>> by_prefix; static std::vector<Stream*> streams; static const size_t BLK = 168, BLKN = 136; static std::map<Bytes, Stream*> prf_by_in; static std::vector<Stream*> used;
static size_t call_blocks_max; struct CallCtx { size_t blocks = 0; }; static void extend_real(Stream* s, size_t blocks) { while (s->real_blocks < blocks) { uint8_t b[BLK]; s->real.squeeze(b, BLK); uint64_t w; memcpy(&w, b, 8); by_prefix[w] = {s, s->real_blocks * BLK}; if (s->substituted) {} s->real_blocks++; } }
static void simbytes(Stream* s, size_t off, uint8_t* out, size_t n);
struct Xofs : Scenario {
  std::string p; Xofs(std::string p) : p(p) {} bool arith = false, safe = false; OpGen gen; int nstyle = 0, mstyle = 0;
  Kem* k[2][5] = {}; int faults = 0; std::set<unsigned> masks; 
  void load() override { for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) k[i][K] = kem(p == "C20" ? "asan" : "xof", i, K); map_rw_pages(); }
  static unsigned extreme(Rng& r, int vals, size_t i) { switch (vals) { case 4: return 3328; case 5: return i & 1 ? 3328 : 0; case 6: return r.below(2) ? 1664 : 1665; case 7: return (i >> 1) & 1 ? 1664 : 1665; case 8: return r.below(4) ? 0 : 1 + r.below(3328); case 9: return 1664; case 10: return 1665; default: return r.below(2) ? 1663 + r.below(4) : 3326 + r.below(3); } }
  static unsigned accepted(Rng& r, int vals, size_t i = 0) { if (vals > 3) return extreme(r, vals, i); static const uint16_t E[] = {0, 1, 3328, 3327, 0xcff, 0xc00, 0x800, 0x7ff, 0x555, 0xaaa, 0xff, 0x100, 0xf00 & 0x7ff, 0x00f, 2048, 1664, 1665}; return vals == 0 ? r.below(3329) : vals == 1 ? E[r.below(17)] : vals == 2 ? 3328 - r.below(4) : r.below(2) ? 3328 : 0; }
  static unsigned rejected(Rng& r, int vals) { return vals == 0 ? 3329 + r.below(767) : vals == 1 ? (r.below(2) ? 3329 : 4095) : vals == 2 ? 3329 + r.below(4) : 4095 - r.below(3); }
  Stream* make(const uint8_t in[34]) {
    Bytes key(in, in + 34); auto it = by_in.find(key); if (it != by_in.end()) { used.push_back(it->second); return it->second; }
    Stream* s = new Stream; memcpy(s->in, in, 34); by_in[key] = s; streams.push_back(s);
    s->real.absorb(in, 34); s->real.finish(0x1f);
    used.push_back(s); int kind = draw(9); if (arith) kind = mstyle == 0 ? 0 : mstyle == 1 ? draw(2) : 1; s->kind = kind; std::vector<uint8_t> acc;   // acceptance pattern per candidate
    Rng r(draw64()); int va = arith ? mstyle >= 2 ? mstyle : 2 + draw(10) : draw(4), vr = draw(4), storm = 0; size_t more = 0;
    auto put = [&](bool a, size_t n = 1) { acc.insert(acc.end(), n, a); };
    static const char* KN[] = {"stream.real", "stream.all_accepted", "stream.random_rejections", "stream.boundary", "stream.rejected_prefix", "stream.storm", "stream.one_missing_then_storm", "stream.alternating", "stream.group_masks"};
    cnt(KN[kind]);
    auto have = [&] { return (size_t)std::count(acc.begin(), acc.end(), 1); };
    switch (kind) {
      case 0: break;
      case 1: put(true, 256); break;
      case 2: { unsigned p = 1 + draw(15); while (have() < 256) put(r.below(16) >= p); } break;
      case 3: { // the last needed candidate at (or next to) the end or start of a block, in the first half or second half of a triple
        static const int D[] = {-1, 0, 1, -2, 2, -3, 3}; size_t last = 336 + 112 * (draw(3) ? draw(2) : draw(8)) + D[draw(7)] - 1; if (draw(4) == 3) last = 256 + draw(80); 
        acc.assign(last + 1, 0); acc[last] = 1; for (int i = 0; i < 255;) { size_t j = r.below(last); if (!acc[j]) { acc[j] = 1; i++; } } } break;
      case 4: put(false, draw(2) ? 112 * (1 + draw(5)) : draw(400)); put(true, 256); break;
      case 5: { static const int L[] = {4, 8, 12, 30, 100, 300}; storm = L[draw(6)]; size_t before = draw(257); put(true, std::min<size_t>(before, 255)); put(false, 112 * storm + draw(112)); put(true, 256 - have()); } break;
      case 6: { size_t d = 1 + draw(3); size_t n = 256 - d; acc.assign(336, 0); for (size_t i = 0; i < n;) { size_t j = r.below(336); if (!acc[j]) { acc[j] = 1; i++; } } put(false, draw(2) ? 112 * draw(6) : draw(600)); put(true, d); } break;
      case 7: { int ph = draw(2); while (have() < 256) { put(((acc.size()) & 1) == (unsigned)ph); } } break;
      case 8: { unsigned base = draw(256); unsigned i = 0; while (have() < 256) { unsigned m = (base + i++ * (draw(4) == 3 ? 1 : 37)) & 255; for (int b = 0; b < 8; b++) put(m >> b & 1); if (i > 2000) put(true, 256); } } break;
    }
    if (kind) {
      // after the 256th acceptable candidate further acceptable ones follow that must not be used
      size_t n = acc.size() + 224; n = (n + 111) / 112 * 112; while (acc.size() < n) acc.push_back(r.below(5) != 0);
      s->sim.assign(acc.size() / 2 * 3, 0);
      for (size_t i = 0; i + 1 < acc.size(); i += 2) { unsigned a = acc[i] ? accepted(r, va, i) : rejected(r, vr), b = acc[i + 1] ? accepted(r, va, i + 1) : rejected(r, vr); uint8_t* q = &s->sim[i / 2 * 3]; q[0] = a; q[1] = a >> 8 | b << 4; q[2] = b >> 4; }
      s->substituted = true; }
    model::Xof old = model::xof; model::xof = [](const uint8_t* in, size_t off, uint8_t* o, size_t n) { simbytes(by_in[Bytes(in, in + 34)], off, o, n); };
    model::sample_ntt(in, &s->need); model::xof = old; (void)more;
    for (size_t i = 0; i + 8 <= acc.size() && i < s->need / 3 * 2; i += 8) { unsigned m = 0; for (int b = 0; b < 8; b++) m |= acc[i + b] << b; masks.insert(m); }
    cntmax("max.blocks_needed", (int64_t)((s->need + BLK - 1) / BLK)); cnt("need.blocks", (int64_t)((s->need + BLK - 1) / BLK)); if (s->need % BLK == 0) cnt("boundary.need_ends_at_block_end"); if ((s->need + BLK - 1) / BLK > 3) cnt("need.more_than_first_request");
    if ((s->need + BLK - 1) / BLK > 6) cnt("fault.rejection_storm");
    sigmix(kind * 1000 + s->need); ev("stream %02x%02x.. x=%u y=%u kind %d need %zu bytes", in[0], in[1], in[32], in[33], kind, s->need);
    return s;
  }
  // noise stream of (seed, nonce): bits whose centred binomial sums are the chosen coefficients
  bool make_prf(const uint8_t* in, int eta, Bytes& out) {
    Bytes key(in, in + 33); key.push_back(eta); auto it = prf_by_in.find(key); if (it != prf_by_in.end()) { used.push_back(it->second); out = it->second->sim; return it->second->substituted; }
    Stream* s = new Stream; s->rate = BLKN; memcpy(s->in, in, 33); prf_by_in[key] = s; s->real = model::Keccak(136); s->real.absorb(in, 33); s->real.finish(0x1f); size_t n = 64 * eta; used.push_back(s);
    int st = nstyle == 0 ? 0 : nstyle == 1 ? draw(12) : nstyle; s->kind = st; static const char* KN[] = {"noise.real", "noise.all_plus", "noise.all_minus", "noise.signs", "noise.zero", "noise.single", "noise.uniform", "noise.walsh", "noise.period", "noise.sparse", "noise.plus_or_zero", "noise.small"}; cnt(KN[st]);
    if (st) { Rng r(draw64()); unsigned mask = r.below(256), ph = r.below(2), per = 1u << r.below(8); s->sim.assign(n, 0); unsigned one = r.below(2) ? 0 : r.below(256);
      for (unsigned i = 0; i < 256; i++) { int x = 0; switch (st) { case 1: x = eta; break; case 2: x = -eta; break; case 3: x = r.below(2) ? eta : -eta; break; case 4: break; case 5: x = i == one ? (ph ? eta : -eta) : 0; break; case 6: x = (int)r.below(2 * eta + 1) - eta; break; case 7: x = (__builtin_popcount(i & mask) & 1) ^ ph ? eta : -eta; break; case 8: x = ((i / per) & 1) ^ ph ? eta : -eta; break; case 9: x = r.below(16) ? 0 : r.below(2) ? eta : -eta; break; case 10: x = r.below(2) ? (ph ? eta : -eta) : 0; break; case 11: x = (int)r.below(3) - 1; break; }
        int lo = x > 0 ? x : 0, hi = x < 0 ? eta + x : eta; int a = lo + (int)r.below(hi - lo + 1), b = a - x; // number of ones among the first and the second eta bits
        auto put = [&](int base, int ones) { for (int q = 0, left = ones; q < eta; q++) if ((int)r.below(eta - q) < left) { left--; int t = base + q; s->sim[t / 8] |= 1 << (t % 8); } }; put(2 * i * eta, a); put(2 * i * eta + eta, b); }
      s->substituted = true; cnt("fault.noise_stream"); }
    s->sim.resize((n + BLKN - 1) / BLKN * BLKN); s->need = n; for (size_t o = 0; o < n; o += BLKN) { uint8_t b[BLKN]; s->real.squeeze(b, BLKN); uint64_t w; memcpy(&w, b, 8); by_prefix[w] = {s, o}; if (!s->substituted) memcpy(&s->sim[o], b, BLKN); else if (n - o < BLKN) memcpy(&s->sim[n], b + (n - o), BLKN - (n - o)); }
    sigmix(st * 77 + in[32]); ev("noise %02x%02x.. nonce %u style %d", in[0], in[1], in[32], st); out = s->sim; return s->substituted; }
  // streams for one public seed; the real stream is indexed as far as any lane could ask for
  size_t prepare(const uint8_t* rho, int K) { size_t mx = 0; std::vector<Stream*> v; for (int x = 0; x < K; x++) for (int y = 0; y < K; y++) { uint8_t in[34]; memcpy(in, rho, 32); in[32] = x; in[33] = y; v.push_back(make(in)); mx = std::max(mx, v.back()->need); } size_t blocks = mx / BLK + 8; for (Stream* s : v) extend_real(s, blocks); 
    int df = 0; for (Stream* s : v) if ((s->need + BLK - 1) / BLK != (v[0]->need + BLK - 1) / BLK) df = 1; if (df) cnt("lanes.different_needs"); return blocks; }
  void differ(const char* what, Kem* kk, const Bytes& got, const Bytes& want) { if (safe) return; cnt("checked.outputs"); if (got == want) return; for (Stream* s : needs[cur]) if (s->substituted && !s->served) { cnt("unjudged.stream_not_seen"); ev("a simulated stream was not obtained through the hash library: unjudged"); return; } size_t i = 0; while (got[i] == want[i]) i++; violation(arith ? "wrong-result" : "wrong-expansion", "%s: %s differs from the model at byte %zu of %zu when matrix streams need %zu bytes at most%s", kk->name.c_str(), what, i, want.size(), maxneed, arith ? " and noise streams hold chosen values" : ""); }
  size_t maxneed = 0; std::map<Task*, std::vector<Stream*>> needs;
  template <class F> void guarded(Kem* kk, const char* what, size_t blocks, F f) { shadow_clear_stack(); needs[cur] = used; CallCtx c; cur->user = &c; call_blocks_max = std::max(call_blocks_max, blocks * 16 + 200); R->steps++; cnt((std::string("calls.") + what).c_str()); if (!f()) violation("terminated", "%s: %s terminated the process", kk->name.c_str(), what); cur->user = nullptr; cnt("blocks.squeezed", (int64_t)c.blocks); }
  // any entry point with exactly the memory its interface asks for
  void anyop() { Kem* kk = k[draw(2)][2 + draw(3)]; auto mx = model::xof; auto mp = model::prfhook; model::xof = xof0; model::prfhook = nullptr; Op o = gen.make(kk); model::xof = mx; model::prfhook = mp; ArenaScope m; std::vector<u8*> ptr; std::vector<Buf> bufs; for (auto& a : o.a) { bufs.emplace_back(a.v.size()); Buf& b = bufs.back(); if (a.m == IN && b.n) memcpy(b.p, a.v.data(), b.n); ptr.push_back(b.p); }
    Ledger l, *ol = ledger_of(cur); set_ledger(cur, &l); shadow_clear_stack(); R->steps++; cnt((std::string("done.") + o.name).c_str()); ev("%s %s", kk->name.c_str(), o.name.c_str()); Term t; if (!libcall(o.name.c_str(), t, [&] { o.call(ptr.data()); })) violation("terminated", "%s: %s terminated the process", kk->name.c_str(), o.name.c_str()); set_ledger(cur, ol); }
  model::Xof xof0 = model::xof;
  struct Key { Bytes pk, sk; int K; }; std::vector<Key> keys;
  // a key pair with one large error coefficient: with noise at its bound the decoded coefficients sit just inside, on or just outside
  // the decision boundary
  Key boundary_key() { int K = 2 + draw(3); const model::Params& P = model::params(K); Bytes rho = rndblob(32), z = blob(32), pk, sk; prepare(rho.data(), K); used.clear(); model::Vec s(K), e(K); for (int i = 0; i < K; i++) for (int j = 0; j < 256; j++) s[i][j] = e[i][j] = 0;
    int eta = K == 2 ? 3 : 2, st = draw(3), B = (st == 0 ? 833 - (int)draw(130) : st == 1 ? 833 - (P.dv == 4 ? 104 : 52) + (int)draw(24) - 10 : 833 - (int)draw(8)) / (draw(4) ? eta : 1); int pi = draw(K), pj = draw(256); e[pi][pj] = draw(2) ? B : model::Q - B; if (draw(2)) s[draw(K)][draw(256)] = draw(2) ? 1 : model::Q - 1;
    model::keypair_from(P, rho.data(), s, e, z.data(), pk, sk); cnt("fault.boundary_key"); ev("boundary key K=%d B=%d", K, B); keys.push_back({pk, sk, K}); if (keys.size() > 6) keys.erase(keys.begin()); return keys.back(); }
  void op() { used.clear(); if (safe && draw(3) == 2) { anyop(); return; }
    int K = 2 + draw(3); Kem* kk = k[draw(2)][K]; const model::Params& P = model::params(K); int a = keys.empty() ? 0 : draw(4);
    if (a == 0) { Bytes coins = blob(64), in(coins.begin(), coins.begin() + 32); in.push_back(K); Bytes g = model::sha3_512(in); size_t bl = prepare(g.data(), K); maxneed = bl * BLK; Bytes wp, ws, pk, sk; model::keygen(P, coins.data(), wp, ws); ev("keygen %s", kk->name.c_str());
      guarded(kk, "keypair_derand", bl, [&] { return call_keypair_derand(kk, coins, pk, sk); }); differ("public key", kk, pk, wp); differ("secret key", kk, sk, ws); keys.push_back({wp, ws, K}); if (keys.size() > 6) keys.erase(keys.begin()); return; }
    Key key = keys[draw((uint32_t)keys.size())]; bool edge = arith && draw(5) == 4;
    if (edge) { key = boundary_key(); a = 3; } K = key.K; kk = k[draw(2)][K]; const model::Params& P2 = model::params(K); Bytes pk = key.pk, sk = key.sk;
    if (a == 1 && draw(2)) { Bytes rho = blob(32); memcpy(&pk[pk.size() - 32], rho.data(), 32); }
    if (arith && a == 2 && draw(2)) { Rng r(draw64()); int st = draw(10); for (int i = 0; i < K; i++) { model::Poly f; for (int j = 0; j < 256; j++) f[j] = st == 0 ? 4095 : st == 1 ? 3329 + r.below(767) : st == 2 ? (r.below(2) ? 4095 : 0) : extreme(r, 2 + st, j); model::encode(&pk[384 * i], f, 12); } cnt("fault.public_key_extreme"); }
    if (arith && a == 3 && !edge && draw(3) == 2) { Rng r(draw64()); int st = draw(10); for (int i = 0; i < K; i++) { model::Poly f; for (int j = 0; j < 256; j++) f[j] = st == 0 ? 4095 : st == 1 ? 3329 + r.below(767) : st == 2 ? (r.below(2) ? 4095 : 0) : extreme(r, 2 + st, j); model::encode(&sk[384 * i], f, 12); } cnt("fault.secret_key_extreme"); }
    size_t bl = prepare(&pk[pk.size() - 32], K); maxneed = bl * BLK; Bytes m = blob(32), wc, wk, ct, ss; if (arith && (edge || draw(4) == 3)) { int sp = draw(4); if (sp) std::fill(m.begin(), m.end(), sp == 2 ? 0xff : 0); if (sp) for (int f = draw(6); f > 0; f--) m[draw(32)] ^= 1 << draw(8); } model::enc(P2, pk, m.data(), wc, wk);
    if (a <= 2) { ev("enc %s", kk->name.c_str()); guarded(kk, "enc_derand", bl, [&] { return call_enc_derand(kk, pk, m, ct, ss); }); differ("ciphertext", kk, ct, wc); differ("shared secret", kk, ss, wk); }
    else { if (edge) ; else if (arith && draw(4) == 3) { int how = draw(4); Rng r(draw64()); for (auto& b : wc) b = how == 0 ? 0 : how == 1 ? 0xff : how == 2 ? (r.below(2) ? 0xff : 0) : r.below(256); cnt("fault.ciphertext_extreme"); } else if (draw(3) == 2) wc[draw((uint32_t)wc.size())] ^= 1 << draw(8); Bytes w; model::DecInfo di; model::dec(P2, sk, wc, w, &di); if (edge && di.accepted && di.minmargin <= 2) cnt("dec.accepted_at_decision_boundary"); ev("dec %s", kk->name.c_str()); guarded(kk, "dec", bl, [&] { return call_dec(kk, sk, wc, ss); }); differ("decapsulated secret", kk, ss, w); } }
  void thread(int n) { while (n-- > 0) { left[cur->id] = n; op(); } }
  std::map<int, int> left; int kills = 0; int suspend = 0, killp = 0;
  void seam();
  void run() override {
    by_in.clear(); by_prefix.clear(); streams.clear(); keys.clear(); model::xof = [](const uint8_t* in, size_t off, uint8_t* o, size_t n) { auto i = by_in.find(Bytes(in, in + 34)); if (i == by_in.end()) internal_error("stream not prepared"); simbytes(i->second, off, o, n); };
    safe = p == "C20"; arith = p == "C19" || (safe && draw(2));
    if (safe) { access_hook = shadow_range; gen.related = true; gen.maxhash = 1200; for (int i = OP_KEYPAIR; i < OP_N; i++) gen.weights[i] = 1 + draw(3);
      int pe = draw(60), ps = draw(60); os.entropy = [pe, ps](Src, uint8_t* b, size_t n, unsigned, int) -> long { if ((int)draw(100) >= 100 - pe) { cnt("fault.entropy.eintr"); return -EINTR; } if ((int)draw(100) >= 100 - ps && n > 1) { n = 1 + draw((uint32_t)n - 1); cnt("fault.entropy.short"); } os_deliver(cur, b, n); return (long)n; }; }
    if (arith) { nstyle = draw(3) ? 1 : draw(12); mstyle = draw(3) ? 1 + draw(11) : draw(2); if (mstyle == 2 || mstyle == 3) mstyle = 1; model::prfhook = [this](const uint8_t* in, int eta, Bytes& o) { return make_prf(in, eta, o); }; }
    int nt = 1 + draw(arith ? 2 : 3); suspend = nt > 1 ? 1 + draw(4) : 0; killp = draw(3) == 2 ? 30 : 0; sample("%d thread(s), suspended at stream requests with weight %d, %s", nt, suspend, killp ? "killed at some" : "never killed");
    for (int i = 0; i < nt; i++) { int n = arith ? 2 + draw(6) : 1 + draw(3); spawn("thread" + std::to_string(i), [this, n] { thread(n); }); }
    schedule(); cnt("distinct.masks_per_run", (int64_t)masks.size()); }
};
static Xofs* X;
void Xofs::seam() { if (suspend && (int)draw(5) < suspend) { cnt("sched.suspended_at_stream_request"); yield_now(); }
  if (killp && chance(1, killp) && kills < 3) { kills++; cnt("fault.thread_killed_in_expansion"); int n = left[cur->id] + 1; ev("killed in expansion"); std::string nm = cur->name + "'"; spawn(nm, [this, n] { thread(n); }); abandon_current(); } }
static void simbytes(Stream* s, size_t off, uint8_t* out, size_t n) {
  if (s->rate == BLKN) { if (off + n <= s->sim.size()) memcpy(out, &s->sim[off], n); return; }
  for (size_t i = 0; i < n; i++, off++) { if (s->substituted) { if (off < s->sim.size()) out[i] = s->sim[off]; else { uint64_t z = (off / 8 + 1) * 0x9E3779B97F4A7C15ull ^ (s->in[32] * 131 + s->in[33]); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27; out[i] = z >> (8 * (off % 8)); } continue; }
    static Stream* cs = nullptr; static Bytes cache; static model::Keccak ck(168); if (cs != s || off + 1 < 1) { cs = s; cache.clear(); ck = model::Keccak(168); ck.absorb(s->in, 34); ck.finish(0x1f); } while (cache.size() <= off) { uint8_t b[BLK]; ck.squeeze(b, BLK); cache.insert(cache.end(), b, b + BLK); } out[i] = cache[off]; } }
// what the hash library just produced: replaced where it is part of a registered stream
static void reprogram(u8* out, size_t n, size_t BLK = ::BLK) {
  if (!X || !cur || !cur->inlib) return; CallCtx* c = (CallCtx*)cur->user;
  if (c && BLK == ::BLK) { c->blocks += (n + BLK - 1) / BLK; if (c->blocks > call_blocks_max) violation("no-progress", "a call fetched more than %zu stream blocks although every stream it uses needs far fewer", call_blocks_max); }
  for (size_t o = 0; o + 8 <= n; o += BLK) { uint64_t w; memcpy(&w, out + o, 8); auto i = by_prefix.find(w); if (i == by_prefix.end()) { cnt("requests.unrecognised"); continue; } size_t len = std::min(BLK, n - o); Stream* s = i->second.first; if (s->rate != BLK) continue; cnt("requests.blocks_delivered"); s->served++; if (s->substituted) simbytes(s, i->second.second, out + o, len); } }
static Hash* real_of(void* ra) { static std::map<Lib*, Hash*> m; Lib* l = lib_of((uintptr_t)ra); if (!l) internal_error("stream request from outside"); Hash*& h = m[l]; if (!h) { h = new Hash; bind_hash(l, l->path.find("_avx2_") != std::string::npos ? "avx2" : "ref", *h); } return h; }
#define NOTRACE __attribute__((noinline))
#define SCALAR(IMPL) \
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202_##IMPL##_shake128_squeezeblocks(u8* o, size_t nb, void* st) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->shake_squeezeblocks[0](o, nb, st); reprogram(o, nb * BLK); } \
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202_##IMPL##_shake128_squeeze(u8* o, size_t n, void* st) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->shake_squeeze[0](o, n, st); reprogram(o, n); } \
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202_##IMPL##_shake128(u8* o, size_t n, const u8* in, size_t il) { Hash* h = real_of(__builtin_return_address(0)); h->shake[0](o, n, in, il); reprogram(o, n); }
SCALAR(ref) SCALAR(avx2)
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202x4_avx2_shake128x4_squeezeblocks(u8* a, u8* b, u8* c, u8* d, size_t nb, void* st) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->x4_squeezeblocks[0](a, b, c, d, nb, st); for (u8* o : {a, b, c, d}) reprogram(o, nb * BLK); }
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202x4_avx2_shake128x4(u8* a, u8* b, u8* c, u8* d, size_t n, const u8* e, const u8* f, const u8* g, const u8* i, size_t il) { Hash* h = real_of(__builtin_return_address(0)); h->x4_shake[0](a, b, c, d, n, e, f, g, i, il); for (u8* o : {a, b, c, d}) reprogram(o, n); }
#define SCALAR256(IMPL) \
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202_##IMPL##_shake256_squeezeblocks(u8* o, size_t nb, void* st) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->shake_squeezeblocks[1](o, nb, st); reprogram(o, nb * BLKN, BLKN); } \
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202_##IMPL##_shake256_squeeze(u8* o, size_t n, void* st) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->shake_squeeze[1](o, n, st); reprogram(o, n, BLKN); } \
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202_##IMPL##_shake256(u8* o, size_t n, const u8* in, size_t il) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->shake[1](o, n, in, il); reprogram(o, n, BLKN); }
SCALAR256(ref) SCALAR256(avx2)
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202x4_avx2_shake256x4_squeezeblocks(u8* a, u8* b, u8* c, u8* d, size_t nb, void* st) { Hash* h = real_of(__builtin_return_address(0)); if (X && cur) X->seam(); h->x4_squeezeblocks[1](a, b, c, d, nb, st); for (u8* o : {a, b, c, d}) reprogram(o, nb * BLKN, BLKN); }
extern "C" NOTRACE void __wrap_pqcrystals_kyber_fips202x4_avx2_shake256x4(u8* a, u8* b, u8* c, u8* d, size_t n, const u8* e, const u8* f, const u8* g, const u8* i, size_t il) { Hash* h = real_of(__builtin_return_address(0)); h->x4_shake[1](a, b, c, d, n, e, f, g, i, il); for (u8* o : {a, b, c, d}) reprogram(o, n, BLKN); }
Scenario* sc_xof(const std::string& p) { return X = new Xofs(p); }
