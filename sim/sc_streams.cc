// C11 incremental / one-shot hashing under arbitrary fragmentation, interleaving, copies and checkpoints; C12 the same for the 4-way functions.
#include "libs.h"
#include "os.h"
#include "scenario.h"
#include <sys/mman.h>
#include <cstdarg>
#include <unistd.h>
#include <syscall.h>
typedef model::Keccak MK;
// state of the reference model after absorbing N zero bytes (N = the smallest multiple of the rate above 2^32); see selftest
#include "zeros4g.h"
static MK zeros4g(unsigned rate) { MK k(rate); const uint64_t* z = rate == 168 ? Z4G_168 : rate == 136 ? Z4G_136 : Z4G_72; memcpy(k.a, z, 200); return k; }
static size_t n4g(unsigned rate) { return ((1ull << 32) / rate + 1) * rate; }
// a region of 4 GiB + 2 MiB whose pages alias a few physical ones; tail pages are private
static u8* huge_region(int which, size_t tailat) {
  u8* b = (u8*)(0x400000000000ull + which * 0x200000000ull); const size_t UNIT = 16 << 20, LEN = (1ull << 32) + (32 << 20); int fd = (int)syscall(SYS_memfd_create, "z", 0); if (fd < 0 || ftruncate(fd, UNIT)) internal_error("memfd");
  for (size_t o = 0; o < LEN; o += UNIT) if (mmap(b + o, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) internal_error("alias mapping"); close(fd);
  size_t t = tailat & ~4095ull; if (mmap(b + t, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) internal_error("tail mapping"); return b; }
static u8* const BASE = (u8*)0x260000000000ull; static const size_t SIZE = 96 << 20; static size_t cursor;
static u8* alloc(size_t n, size_t align) { static bool up; if (!up) { up = true; if (mmap(BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) internal_error("stream arena"); }
  cursor = (cursor + align - 1) / align * align + align * draw(3); u8* p = BASE + cursor; cursor += n; if (cursor > SIZE) internal_error("stream arena full"); return p; }
struct Snap { Bytes st; std::vector<MK> m; int phase; size_t squeezed; };
struct Session { int id; Kem* k; int s; bool x4; u8* st; std::vector<MK> m; int phase = 0; size_t squeezed = 0; std::vector<Snap> snaps; unsigned rate() const { return RATE[s]; } size_t stn() const { return x4 ? k->hash.stx4 : k->hash.st; } };
struct Streams : Scenario {
  std::string p; bool x4p, tsan; Kem* k[2][2][5] = {}; std::vector<std::pair<Lib*, std::vector<Bytes>>> image; int nextid = 0;
  Streams(std::string p) : p(p), x4p(p == "C12") {}
  double cpu_limit() override { return 150; }
  void load() override { for (int f = 0; f < 2; f++) for (int i = x4p; i < 2; i++) for (int K = 2; K <= 4; K++) k[f][i][K] = kem(f ? "tsan" : "ship", i, K); for (Lib* l : libs) { std::vector<Bytes> v; for (auto& r : l->rw) v.push_back(Bytes((u8*)r.first, (u8*)r.second)); image.push_back({l, v}); } }
  void restart() { for (auto& im : image) for (size_t i = 0; i < im.second.size(); i++) memcpy((void*)im.first->rw[i].first, im.second[i].data(), im.second[i].size()); }
  static size_t piece(size_t pos, unsigned r) { switch (draw(10)) { case 0: return r - pos % r; case 1: return r - pos % r + 1; case 2: return r - pos % r - 1; case 3: return 0; case 4: return 1 + draw(8); case 5: return r * (1 + draw(3)); case 6: return r * draw(4) + draw(r); case 7: return draw(700); case 8: return 1 + draw(20); default: return draw(12) == 11 ? draw(20000) : 2 * r - pos % r; } }
  static size_t anylen(size_t r) { switch (draw(5)) { case 0: return r * draw(5); case 1: return r * (1 + draw(4)) - 1 - draw(9); case 2: return r * draw(4) + 1 + draw(9); case 3: return draw(60); default: return draw(20) == 19 ? draw(30000) : draw(1000); } }
  u8* place(const Bytes& b) { u8* q = (new Buf(b.size() + 16))->p + draw(16); if (b.size()) memcpy(q, b.data(), b.size()); return q; }
  u8* room(size_t n) { return (new Buf(n + 16))->p + draw(16); }
  template <class F> void call(const char* name, F f) { Term t; R->steps++; sigmix(hashbytes(name, strlen(name))); cnt((std::string("calls.") + name).c_str()); if (!libcall(name, t, f)) violation("terminated", "%s terminated the process (%s)", name, t.how.c_str()); }
  void compare(const u8* got, const Bytes& want, const char* fmt, ...) { cnt("checked.bytes", (int64_t)want.size()); if (want.empty() || !memcmp(got, want.data(), want.size())) return; size_t i = 0; while (got[i] == want[i]) i++; char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, 400, fmt, ap); va_end(ap); violation("wrong-stream", "%s: byte %zu of %zu is %02x instead of %02x", b, i, want.size(), got[i], want[i]); }
  Kem* anykem() { return k[tsan][x4p ? 1 : (int)draw(2)][2 + draw(3)]; }
  Session* fresh() { Session* s = new Session; s->id = nextid++; s->k = anykem(); s->s = draw(2); s->x4 = x4p; s->st = alloc(s->stn(), x4p ? 32 : 8); Rng r(draw(3) ? draw64() : 7); r.fill(s->st, s->stn()); ev("session %d: %s shake%d%s", s->id, s->k->name.c_str(), s->s ? 256 : 128, x4p ? "x4" : ""); cnt("sessions"); return s; }
  // ------------------------------------------------------------ scalar session step
  void step(Session& s) {
    Hash& h = s.k->hash; size_t am = arena_mark(); const char* N = s.s ? "shake256" : "shake128";
    if (s.phase == 0) {
      if (draw(4) == 3) { Bytes b = blob(anylen(s.rate())); u8* q = place(b); s.m = {MK(s.rate())}; s.m[0].absorb(b.data(), b.size()); s.m[0].finish(0x1f); ev("s%d absorb_once %zu", s.id, b.size()); call("absorb_once", [&] { h.shake_absorb_once[s.s](s.st, q, b.size()); }); s.phase = 2; s.squeezed = 0; cnt("mix.absorb_once"); }
      else { s.m = {MK(s.rate())}; ev("s%d init", s.id); call("init", [&] { h.shake_init[s.s](s.st); }); s.phase = 1; } }
    else if (s.phase == 1) {
      if (draw(5) == 4) { s.m[0].finish(0x1f); ev("s%d finalize", s.id); call("finalize", [&] { h.shake_finalize[s.s](s.st); }); s.phase = 2; s.squeezed = 0; }
      else { Bytes b = blob(piece(s.m[0].pos, s.rate())); u8* q = place(b); ev("s%d absorb %zu", s.id, b.size()); if (b.empty()) cnt("piece.empty"); if ((s.m[0].pos + b.size()) % s.rate() == 0 && !b.empty()) cnt("piece.ends_at_block_boundary"); s.m[0].absorb(b.data(), b.size()); call("absorb", [&] { h.shake_absorb[s.s](s.st, q, b.size()); }); } }
    else {
      bool aligned = s.squeezed % s.rate() == 0;
      if (aligned && draw(2)) { size_t nb = draw(5); if (draw(60) == 59) nb = draw(80); Bytes w(nb * s.rate()); s.m[0].squeeze(w.data(), w.size()); u8* q = room(w.size()); ev("s%d squeezeblocks %zu", s.id, nb); call("squeezeblocks", [&] { h.shake_squeezeblocks[s.s](q, nb, s.st); }); if (s.squeezed) cnt("mix.blocks_after_bytes_or_blocks"); s.squeezed += w.size(); compare(q, w, "%s %s session %d, squeezeblocks(%zu) after %zu bytes", s.k->name.c_str(), N, s.id, nb, s.squeezed - w.size()); }
      else { size_t n = piece(s.squeezed, s.rate()); Bytes w(n); s.m[0].squeeze(w.data(), n); u8* q = room(n); ev("s%d squeeze %zu", s.id, n); if (!n) cnt("request.empty"); if (n && (s.squeezed + n) % s.rate() == 0) cnt("request.ends_at_block_boundary"); call("squeeze", [&] { h.shake_squeeze[s.s](q, n, s.st); }); s.squeezed += n; compare(q, w, "%s %s session %d, squeeze(%zu) after %zu bytes", s.k->name.c_str(), N, s.id, n, s.squeezed - n); }
      if (draw(8) == 7) s.phase = 0; }                       // the state object is used for a new session
    arena_reset(am); }
  void oneshot() {
    size_t am = arena_mark(); Kem* kk = anykem(); Hash& h = kk->hash; int f = draw(4); static const unsigned RT[4] = {168, 136, 136, 72}; size_t n = anylen(RT[f]), m = f < 2 ? anylen(RT[f]) : f == 2 ? 32 : 64; Bytes b = blob(n); u8* in = place(b); u8* out = room(m); Bytes w = model::hash(RT[f], f < 2 ? 0x1f : 0x06, b.data(), n, m); static const char* N[] = {"shake128", "shake256", "sha3_256", "sha3_512"}; ev("%s %s in=%zu out=%zu", kk->name.c_str(), N[f], n, m);
    call(N[f], [&] { if (f < 2) h.shake[f](out, m, in, n); else h.sha3[f - 2](out, in, n); }); compare(out, w, "%s %s of %zu bytes, %zu bytes output", kk->name.c_str(), N[f], n, m); arena_reset(am); }
  // ------------------------------------------------------------ 4-way
  struct Lanes { u8* p[4]; };
  Lanes place4(std::vector<Bytes>& v, size_t n) {       // tape-chosen inputs of the four lanes, possibly sharing or overlapping memory
    Lanes l; v.resize(4); switch (draw(8)) {
      case 1: { Bytes b = blob(n); u8* q = place(b); for (int i = 0; i < 4; i++) { v[i] = b; l.p[i] = q; } cnt("layout.one_shared_input"); } break;
      case 2: { size_t d = 1 + draw(3); Bytes b = blob(n + 3 * d); u8* q = place(b); for (int i = 0; i < 4; i++) { v[i].assign(b.begin() + i * d, b.begin() + i * d + n); l.p[i] = q + i * d; } cnt("layout.overlapping_inputs"); } break;
      case 3: { Bytes b = blob(n); int odd = draw(4); for (int i = 0; i < 4; i++) { v[i] = b; if (i == odd && n) v[i][draw((uint32_t)n)] ^= 1 << draw(8); l.p[i] = place(v[i]); } cnt("layout.lanes_differ_in_one_bit"); } break;
      case 4: { Bytes b = blob(n * 4); int perm[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; i--) std::swap(perm[i], perm[draw(i + 1)]); u8* q = place(b); for (int i = 0; i < 4; i++) { l.p[i] = q + perm[i] * n; v[i].assign(b.begin() + perm[i] * n, b.begin() + (perm[i] + 1) * n); } cnt("layout.adjacent_inputs"); } break;
      case 5: case 6: { // some lanes read the same buffer
          int nb = 2 + draw(2); std::vector<Bytes> b; std::vector<u8*> q; for (int i = 0; i < nb; i++) { b.push_back(i && draw(3) == 2 ? b[0] : blob(n)); if (i && n && b[i] == b[0] && draw(2)) b[i][draw((uint32_t)n)] ^= 1 << draw(8); q.push_back(place(b[i])); } for (int i = 0; i < 4; i++) { int c = draw(nb); v[i] = b[c]; l.p[i] = q[c]; } cnt("layout.some_lanes_share_an_input"); } break;
      default: for (int i = 0; i < 4; i++) { v[i] = i && draw(6) == 5 ? v[draw(i)] : blob(n); l.p[i] = place(v[i]); } }
    return l; }
  Lanes room4(size_t n, Lanes* reuse = nullptr, size_t have = 0) { Lanes l; if (reuse && have >= n && draw(2)) { cnt("layout.outputs_over_inputs"); return *reuse; } if (draw(3) == 2) { u8* q = room(n * 4); int perm[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; i--) std::swap(perm[i], perm[draw(i + 1)]); for (int i = 0; i < 4; i++) l.p[i] = q + perm[i] * n; cnt("layout.adjacent_outputs"); } else for (int i = 0; i < 4; i++) l.p[i] = room(n); return l; }
  Lanes inl; size_t inn = 0;
  void step4(Session& s) {
    Hash& h = s.k->hash; size_t am = arena_mark(); int N = s.s ? 256 : 128;
    if (s.phase == 0) { size_t n = anylen(s.rate()); std::vector<Bytes> v; Lanes l = place4(v, n); s.m.clear(); for (int i = 0; i < 4; i++) { MK m(s.rate()); m.absorb(v[i].data(), n); m.finish(0x1f); s.m.push_back(m); } ev("s%d absorb_once x4 %zu", s.id, n); call("absorb_once_x4", [&] { h.x4_absorb_once[s.s](s.st, l.p[0], l.p[1], l.p[2], l.p[3], n); }); s.phase = 2; s.squeezed = 0; 
      if (draw(3) == 2 && n >= s.rate()) { size_t nb = draw((uint32_t)(n / s.rate()) + 1); bool distinct = true; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) if ((size_t)llabs(l.p[i] - l.p[j]) < n) distinct = false; if (distinct) { squeeze4(s, nb, l); cnt("layout.outputs_over_inputs"); } } }
    else { size_t nb = draw(5); if (draw(50) == 49) nb = draw(60); squeeze4(s, nb, room4(nb * s.rate())); if (draw(5) == 4) s.phase = 0; }
    arena_reset(am); (void)N; }
  void squeeze4(Session& s, size_t nb, Lanes o) { Hash& h = s.k->hash; ev("s%d squeezeblocks x4 %zu", s.id, nb); if (!nb) cnt("request.empty"); call("squeezeblocks_x4", [&] { h.x4_squeezeblocks[s.s](o.p[0], o.p[1], o.p[2], o.p[3], nb, s.st); }); for (int i = 0; i < 4; i++) { Bytes w(nb * s.rate()); s.m[i].squeeze(w.data(), w.size()); compare(o.p[i], w, "%s shake%dx4 session %d, lane %d, squeezeblocks(%zu) after %zu blocks", s.k->name.c_str(), s.s ? 256 : 128, s.id, i, nb, s.squeezed); } s.squeezed += nb; }
  void oneshot4() { size_t am = arena_mark(); Kem* kk = anykem(); Hash& h = kk->hash; int f = draw(2); size_t n = anylen(RATE[f]), m = anylen(RATE[f]); std::vector<Bytes> v; Lanes l = place4(v, n), o = room4(m); ev("%s shake%dx4 in=%zu out=%zu", kk->name.c_str(), f ? 256 : 128, n, m); call("shake_x4", [&] { h.x4_shake[f](o.p[0], o.p[1], o.p[2], o.p[3], m, l.p[0], l.p[1], l.p[2], l.p[3], n); }); for (int i = 0; i < 4; i++) compare(o.p[i], f ? model::shake256(v[i], m) : model::shake128(v[i], m), "%s shake%dx4 of %zu bytes, lane %d, %zu bytes output", kk->name.c_str(), f ? 256 : 128, n, i, m); arena_reset(am); }
  // ------------------------------------------------------------ lengths beyond 32 bits
  void huge() {
    tsan = false; Kem* kk = k[0][x4p ? 1 : (int)draw(2)][2 + draw(3)]; Hash& h = kk->hash; int f = draw(x4p ? 2 : 4); static const unsigned RT[4] = {168, 136, 136, 72}; unsigned r = RT[f]; size_t N = n4g(r); bool out = draw(2) && f < 2; std::string what;
    if (!out) { size_t t = draw(3 * r); u8* b = huge_region(0, N); u8* st = alloc(h.st + 800, 32); 
      if (!x4p) { Bytes tail = rndblob(t); memcpy(b + N, tail.data(), t); MK m = zeros4g(r); m.absorb(tail.data(), t); m.finish(f < 2 ? 0x1f : 0x06); size_t ol = f < 2 ? 200 : f == 2 ? 32 : 64; Bytes w(ol); m.squeeze(w.data(), ol); u8* q = room(ol); int how = f < 2 ? draw(3) : 0; what = std::string("input of ") + std::to_string(N + t) + " bytes"; ev("huge input f=%d how=%d tail=%zu", f, how, t);
        if (how == 0) call("one_shot_huge", [&] { if (f < 2) h.shake[f](q, ol, b, N + t); else h.sha3[f - 2](q, b, N + t); });
        else { if (how == 1) call("absorb_once_huge", [&] { h.shake_absorb_once[f](st, b, N + t); }); else { size_t first = draw(2) ? draw(400) : 0; call("absorb_huge", [&] { h.shake_init[f](st); h.shake_absorb[f](st, b, first); h.shake_absorb[f](st, b + first, N + t - first); h.shake_finalize[f](st); }); } call("squeeze", [&] { h.shake_squeeze[f](q, ol, st); }); }
        compare(q, w, "%s hash %d (0 shake128, 1 shake256, 2 sha3_256, 3 sha3_512) of an %s", kk->name.c_str(), f, what.c_str()); cnt("huge.input"); }
      else { Bytes tail = rndblob(t); memcpy(b + N, tail.data(), t); MK m = zeros4g(r); m.absorb(tail.data(), t); m.finish(0x1f); Bytes w(2 * r); m.squeeze(w.data(), w.size()); Lanes o = room4(2 * r); ev("huge x4 input f=%d tail=%zu", f, t); if (draw(2)) call("shake_x4_huge", [&] { h.x4_shake[f](o.p[0], o.p[1], o.p[2], o.p[3], 2 * r, b, b, b, b, N + t); }); else call("absorb_once_x4_huge", [&] { h.x4_absorb_once[f](st, b, b, b, b, N + t); h.x4_squeezeblocks[f](o.p[0], o.p[1], o.p[2], o.p[3], 2, st); }); for (int i = 0; i < 4; i++) compare(o.p[i], w, "%s shake%dx4 lane %d of an input of %zu bytes", kk->name.c_str(), f ? 256 : 128, i, N + t); cnt("huge.input"); } }
    else { // output of more than 2^32 bytes of the hash of the empty input
      MK m(r); memcpy(m.a, f ? OUT4G_136 : OUT4G_168, 200); size_t t = draw(2 * r); Bytes w(t + r); m.pos = 0; m.squeeze(w.data(), w.size()); size_t at = N - r; ev("huge output f=%d tail=%zu", f, t);
      if (!x4p) { u8* b = huge_region(0, at); u8* st = alloc(h.st, 8); int how = draw(3); if (how == 0) call("one_shot_huge", [&] { h.shake[f](b, N + t, b, 0); }); else { call("init", [&] { h.shake_init[f](st); h.shake_finalize[f](st); }); if (how == 1) call("squeeze_huge", [&] { h.shake_squeeze[f](b, N + t, st); }); else call("squeezeblocks_huge", [&] { h.shake_squeezeblocks[f](b, N / r, st); h.shake_squeeze[f](b + N, t, st); }); } compare(b + at, w, "%s shake%d, end of an output of %zu bytes", kk->name.c_str(), f ? 256 : 128, N + t); }
      else { Lanes o; for (int i = 0; i < 4; i++) o.p[i] = huge_region(i, at); u8* st = alloc(h.stx4, 32); if (draw(2)) call("shake_x4_huge", [&] { h.x4_shake[f](o.p[0], o.p[1], o.p[2], o.p[3], N + t, o.p[0], o.p[1], o.p[2], o.p[3], 0); }); else { w.resize(r); call("squeezeblocks_x4_huge", [&] { h.x4_absorb_once[f](st, o.p[0], o.p[1], o.p[2], o.p[3], 0); h.x4_squeezeblocks[f](o.p[0], o.p[1], o.p[2], o.p[3], N / r, st); }); } for (int i = 0; i < 4; i++) compare(o.p[i] + at, w, "%s shake%dx4 lane %d, end of an output of more than 4 GiB", kk->name.c_str(), f ? 256 : 128, i); }
      cnt("huge.output"); } }
  void thread(bool single, int n) {
    std::vector<Session*> ss; int want = 1 + draw(4); for (int i = 0; i < want; i++) ss.push_back(fresh());
    for (int j = 0; j < n; j++) {
      int a = draw(16); if (a < 10) { int i = draw((uint32_t)ss.size()); if (x4p) step4(*ss[i]); else step(*ss[i]); sigmix(i); continue; }
      if (a < 12) { if (x4p) oneshot4(); else oneshot(); continue; }
      Session& s = *ss[draw((uint32_t)ss.size())];
      if (a == 12) { if (s.phase) { Session* c = new Session(s); c->id = nextid++; c->st = alloc(s.stn(), x4p ? 32 : 8); memcpy(c->st, s.st, s.stn()); if (ss.size() < 6) ss.push_back(c); else { Session*& d = ss[draw((uint32_t)ss.size())]; d = c; } ev("s%d copied to s%d", s.id, c->id); cnt("fault.state_copied_in_mid_stream"); } }
      else if (a == 13) { if (s.phase) { s.snaps.push_back({Bytes(s.st, s.st + s.stn()), s.m, s.phase, s.squeezed}); if (s.snaps.size() > 3) s.snaps.erase(s.snaps.begin()); ev("s%d saved", s.id); cnt("states_saved"); } }
      else if (a == 14) { if (!s.snaps.empty()) { Snap& q = s.snaps[draw((uint32_t)s.snaps.size())]; if (draw(2)) { memset(s.st, 0xee, s.stn()); s.st = alloc(s.stn(), x4p ? 32 : 8); } memcpy(s.st, q.st.data(), s.stn()); s.m = q.m; s.phase = q.phase; s.squeezed = q.squeezed; ev("s%d rolled back", s.id); cnt("fault.session_rolled_back"); } }
      else if (single && draw(4) == 3) { restart(); ev("process crashed and restarted"); cnt("fault.crash_restart"); for (Session* q : ss) { memset(q->st, 0x99, q->stn()); q->st = alloc(q->stn(), x4p ? 32 : 8); if (q->snaps.empty()) { q->phase = 0; continue; } Snap& w = q->snaps.back(); memcpy(q->st, w.st.data(), q->stn()); q->m = w.m; q->phase = w.phase; q->squeezed = w.squeezed; cnt("sessions_resumed_after_crash"); } }
      else if (draw(2)) { Kem* kk = anykem(); Bytes pk, sk, c = blob(64), wp, ws; ev("interleaved key generation"); if (!call_keypair_derand(kk, c, pk, sk)) violation("terminated", "keypair_derand terminated"); cnt("interleaved_kem_calls"); } }
  }
  void run() override {
    if (draw(1500) == 1) { spawn("app", [this] { huge(); }); schedule(); return; }
    tsan = draw(3) == 2; int nt = tsan ? 1 + draw(3) : 1; int n = 4 + draw(nt > 1 ? 14 : 50); static const int SC[] = {6, 9, 12, 15}; int scale = SC[draw(4)]; bool pre = nt > 1; sample("%d thread(s), %d steps, %s build", nt, n, tsan ? "instrumented" : "optimised");
    if (pre) { slice_policy = [scale](Task*) { return 1 + (int64_t)drawlog(1u << scale); }; on_slice_end = [](Task*) { cnt("sched.preemptions"); yield_now(); }; }
    for (int i = 0; i < nt; i++) spawn("thread" + std::to_string(i), [this, nt, n] { thread(nt == 1, n); });
    schedule(); }
};
Scenario* sc_streams(const std::string& p) { return new Streams(p); }
