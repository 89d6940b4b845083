// C01 key agreement over a faulty network, C02 implicit rejection under damage, C03 agreement with the specified scheme.
#include "core.h"
#include "libs.h"
#include "os.h"
#include "scenario.h"
#include "damage.h"
static const char* IM[2] = {"ref", "avx2"};
// ---------------------------------------------------------------------------------------------- damage library
std::string damage(Bytes& b, const std::vector<const Bytes*>& others) {
  size_t n = b.size(); Bytes orig = b; const char* what = "?"; auto pos = [&] { return (size_t)draw((uint32_t)n); }; auto mask = [&] { uint8_t m = 1 << draw(8); if (chance(1, 3)) m = (uint8_t)(1 + draw(255)); return m; };
  switch (draw(24)) {
    case 0: what = "bit"; b[pos()] ^= 1 << draw(8); break;
    case 1: what = "byte"; b[pos()] ^= mask(); break;
    case 2: { what = "bits"; int k = 2 + draw(40); for (int i = 0; i < k; i++) b[pos()] ^= 1 << draw(8); } break;
    case 3: { what = "burst"; size_t p = pos(), l = 1 + draw(64); Rng r(draw64()); for (size_t i = p; i < std::min(n, p + l); i++) b[i] ^= r.next(); } break;
    case 4: { what = "pair-same-mask"; static const int D[] = {1, 2, 3, 4, 8, 16, 24, 32, 48, 64, 96, 128, 160, 256, 320, 352, 384, 512}; size_t d = chance(1, 4) ? 1 + draw((uint32_t)n - 1) : D[draw(18)]; size_t p = draw((uint32_t)(n - std::min(d, n - 1))); uint8_t m = mask(); b[p] ^= m; b[(p + d) % n] ^= m; } break;
    case 5: { what = "compensating-sum"; int w = 1 << draw(4); size_t k = n / w; size_t i = draw((uint32_t)k), j = draw((uint32_t)k); if (i != j) { uint64_t v = w == 8 ? draw64() : 1 + draw(w == 1 ? 255 : 65535); uint64_t x = 0, y = 0; memcpy(&x, &b[i * w], w); memcpy(&y, &b[j * w], w); x += v; y -= v; memcpy(&b[i * w], &x, w); memcpy(&b[j * w], &y, w); } } break;
    case 6: { what = "swap-blocks"; static const int S[] = {1, 2, 4, 5, 8, 10, 11, 16, 20, 32, 64, 128, 320, 352}; size_t s = S[draw(14)], k = n / s; if (k > 1) { size_t i = draw((uint32_t)k), j = draw((uint32_t)k); for (size_t t = 0; t < s; t++) std::swap(b[i * s + t], b[j * s + t]); } } break;
    case 7: { what = "rotate-range"; size_t p = pos(), q = pos(); if (p > q) std::swap(p, q); if (q - p > 1) std::rotate(b.begin() + p, b.begin() + p + 1 + draw((uint32_t)(q - p - 1)), b.begin() + q); } break;
    case 8: { what = "fill-range"; size_t p = pos(), q = pos(); if (p > q) std::swap(p, q); static const uint8_t F[] = {0, 0xff, 0x80, 0x7f, 1}; uint8_t f = F[draw(5)]; for (size_t i = p; i <= q; i++) b[i] = f; } break;
    case 9: { what = "truncate-pad"; size_t p = pos(); int k = draw(3); Rng r(draw64()); for (size_t i = p; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? (uint8_t)r.next() : b[i - p]; } break;
    case 10: if (!others.empty()) { what = "splice"; const Bytes& o = *others[draw((uint32_t)others.size())]; size_t p = pos(); for (size_t i = p; i < n && i < o.size(); i++) b[i] = o[i]; } break;
    case 11: if (!others.empty()) { what = "splice-head"; const Bytes& o = *others[draw((uint32_t)others.size())]; size_t p = pos(); for (size_t i = 0; i < p && i < o.size(); i++) b[i] = o[i]; } break;
    case 12: if (!others.empty()) { what = "other-message"; const Bytes& o = *others[draw((uint32_t)others.size())]; for (size_t i = 0; i < n; i++) b[i] = i < o.size() ? o[i] : 0; } break;
    case 13: { what = "random"; Rng r(draw64()); r.fill(b.data(), n); } break;
    case 14: { what = "structured"; b = blob(n); } break;
    case 15: { what = "stride-mask"; static const int S[] = {1, 2, 4, 8, 16, 32, 64, 128, 256}; size_t s = S[draw(9)], o = draw((uint32_t)s); uint8_t m = mask(); for (size_t i = o; i < n; i += s) b[i] ^= m; } break;
    case 16: { what = "cancelling-mask-count"; int e = draw(8); size_t c = 1u << (8 - e); if (chance(1, 3)) c = n < 512 || chance(1, 2) ? 256 : 512; uint8_t m = 1 << e; if (e == 0 && n < 256) break; if (c > n) break; size_t st = chance(1, 3) ? std::min<size_t>(32, n / c) : 1; if (!st) st = 1; size_t p = draw((uint32_t)(n - c * st + 1)); for (size_t i = 0; i < c; i++) b[p + i * st] ^= m; } break;
    case 17: { what = "tail"; size_t l = 1 + draw(33); for (size_t i = n - std::min(n, l); i < n; i++) if (chance(1, 2)) b[i] ^= mask(); b[n - 1 - draw((uint32_t)std::min(n, l))] ^= 1; } break;
    case 18: { what = "head"; size_t l = 1 + draw(33); b[draw((uint32_t)std::min(n, l))] ^= mask(); } break;
    case 19: { what = "increment"; size_t p = pos(); uint32_t x = 0; size_t w = std::min<size_t>(4, n - p); memcpy(&x, &b[p], w); x += 1 + draw(3); memcpy(&b[p], &x, w); } break;
    case 20: { what = "two-lanes"; size_t d = 32 * (1 + draw((uint32_t)(n / 32 - 1))); size_t p = draw((uint32_t)(n - std::min(d, n - 1))); for (int t = 0; t < 4; t++) { size_t q = draw(32); uint8_t m = mask(); if (p + q < n) b[p + q] ^= m; b[(p + q + d) % n] ^= m; } } break;
    case 21: { what = "reverse-range"; size_t p = pos(), q = pos(); if (p > q) std::swap(p, q); std::reverse(b.begin() + p, b.begin() + q + 1); } break;
    case 22: { what = "stuck-bits"; uint8_t m = 1 << draw(8); int hi = draw(2); size_t p = pos(), q = std::min(n, p + 512); for (size_t i = p; i < q; i++) if (hi) b[i] |= m; else b[i] &= ~m; } break;
    case 23: { what = "bit-near-block-edge"; static const int S[] = {8, 16, 32, 64, 136, 168, 320, 352, 384}; size_t s = S[draw(9)]; size_t p = s * (1 + draw((uint32_t)(n / s))); int d = (int)draw(3) - 1; size_t q = std::min(n - 1, (size_t)((long)p + d)); b[q] ^= 1 << draw(8); } break;
  }
  if (b == orig) { b[pos()] ^= 1 << draw(8); what = "bit"; }
  char nm[64]; snprintf(nm, sizeof nm, "fault.damage.%s", what); cnt(nm); return what;
}
// ---------------------------------------------------------------------------------------------- C01
struct Msg { int64_t at; uint64_t seq; int to, type, key, sess; uint64_t nonce; Bytes body; bool damaged; };
struct Cmp { bool operator()(const Msg& a, const Msg& b) const { return a.at != b.at ? a.at < b.at : a.seq < b.seq; } };
struct Holder { int id, K; int impl; Bytes disk_sk, disk_pk; bool synced = false, up = false; int gen = 0; std::deque<Msg> inbox; std::vector<Task*> thr; };
struct Session { int client, holder; int state = 0; Bytes ct, ss; int attempts = 0; };
struct Net01 : Scenario {
  std::string p; Net01(std::string p) : p(p) {}
  void load() override { for (const char* fl : {"ship", "tsan"}) for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) kem(fl, i, K); }
  std::vector<Holder> H; std::vector<Msg> wire; uint64_t seq = 0; std::map<std::pair<Bytes, Bytes>, std::pair<Bytes, int>> truth;   // (public key, ciphertext) -> secret, session
   std::map<Bytes, int> owner; std::vector<std::deque<Msg>> cin; std::vector<Session> S; std::vector<Bytes> keycoins;
  int64_t tstop; unsigned pdrop, pdup, pdelay, pcorrupt; const char* flavor; bool preempt; int pending; int netw;
  bool faults() { return now() < tstop; }
  void send(int to, int type, int key, int sess, uint64_t nonce, const Bytes& b) {
    if (faults() && chance(pdrop, 100)) { cnt("fault.net.drop"); ev("drop type=%d to=%d", type, to); return; }
    int copies = 1; if (faults() && chance(pdup, 100)) { cnt("fault.net.duplicate"); copies = 2 + draw(2); }
    for (int c = 0; c < copies; c++) { Msg m{now() + 200000 + (int64_t)draw(1000) * 1000, seq++, to, type, key, sess, nonce, b, false};
      if (faults() && chance(pdelay, 100)) { m.at += (int64_t)drawlog(2000) * 1000000; cnt("fault.net.delay"); }
      if (faults() && chance(pcorrupt, 100)) { Bytes o = m.body; std::vector<const Bytes*> oth; for (auto& s : S) if (s.ct.size() == o.size() && s.ct != o) oth.push_back(&s.ct); if (oth.size() > 4) oth.resize(4); damage(m.body, oth); m.damaged = m.body != o; }
      if (!wire.empty() && m.at < wire.back().at) cnt("fault.net.reorder");
      wire.push_back(m); std::sort(wire.begin(), wire.end(), Cmp()); }
    wake_all(&netw);
  }
  void net_loop() { for (;;) { if (wire.empty()) { block_on(&netw); continue; } if (wire[0].at > now()) { block_until(&netw, wire[0].at); continue; }
      Msg m = wire[0]; wire.erase(wire.begin());
      if (m.to < 1000) { Holder& h = H[m.to]; if (!h.up) { cnt("fault.net.to_down_host"); continue; } h.inbox.push_back(m); wake_all(&h); }
      else { cin[m.to - 1000].push_back(m); wake_all(&cin[m.to - 1000]); } } }
  Kem* K_(int impl, int K) { return kem(flavor, impl, K); }
  void holder_thread(Holder* h, bool first) {
    if (first && !h->synced) {                       // generate and store the key pair; a crash before the sync loses it
      Bytes coins = blob(64), pk, sk; if (!keycoins.empty() && draw(4) == 3) { const Bytes& o = keycoins[draw((uint32_t)keycoins.size())]; int how = draw(3); for (int q = how == 1 ? 32 : 0; q < (how == 0 ? 32 : 64); q++) coins[q] = o[q]; cnt("keys.related_coins"); } keycoins.push_back(coins); Kem* k = K_(h->impl, h->K); if (!call_keypair_derand(k, coins, pk, sk)) violation("terminated", "%s keypair terminated the process", k->name.c_str()); if (last_rc()) violation("failed-return", "%s keypair returned %d", k->name.c_str(), last_rc());
      sleep_until(now() + 1 + draw(3000000)); h->disk_pk = pk; h->disk_sk = sk; h->synced = true; h->gen++; ev("holder %d stored key gen %d K=%d pk=%lx", h->id, h->gen, h->K, hashb(pk)); wake_all(&h->synced); }
    while (!h->synced) block_on(&h->synced);
    Bytes sk = h->disk_sk, pk = h->disk_pk; int impl = h->impl;
    for (;;) { while (h->inbox.empty()) block_on(h); Msg m = h->inbox.front(); h->inbox.pop_front();
      if (m.type == 0) { send(1000 + m.key, 1, h->id, m.sess, m.nonce, pk); continue; }
      if (m.type != 2 || m.body.size() != model::params(h->K).ctb()) continue;
      if (chance(1, 6)) { impl ^= 1; cnt("holder.switched_implementation"); }
      Kem* k = K_(impl, h->K); Bytes ss; cnt(impl ? "dec.by_avx2" : "dec.by_ref");
      if (!call_dec(k, sk, m.body, ss)) violation("terminated", "%s dec terminated the process", k->name.c_str());
      if (last_rc()) violation("failed-return", "%s dec returned %d on a delivered ciphertext", k->name.c_str(), last_rc());
      auto it = truth.find({pk, m.body}); ev("holder %d dec %s ct=%lx ss=%lx", h->id, k->name.c_str(), hashb(m.body), hashb(ss));
      if (it != truth.end()) { cnt("checked.honest"); if (it->second.first != ss) violation("secret-mismatch", "%s: intact ciphertext of session %d decapsulates to %s, sender has %s (delivery %lu, %s)", k->name.c_str(), it->second.second, hexs(ss).c_str(), hexs(it->second.first).c_str(), m.seq, m.damaged ? "rewritten" : "plain"); }
      else { cnt("checked.foreign"); if (owner.count(ss)) violation("secret-mixed", "%s: a ciphertext that is not session %d's yields session %d's secret", k->name.c_str(), owner[ss], owner[ss]); }
      Bytes mac = ss; mac.push_back(1); send(1000 + m.key, 3, h->id, m.sess, m.nonce, model::sha3_256(mac)); } }
  void start_holder(Holder& h) { h.up = true; h.inbox.clear(); int n = 1 + (preempt ? draw(3) : 0); h.thr.clear(); for (int i = 0; i < n; i++) h.thr.push_back(spawn("holder" + std::to_string(h.id) + "." + std::to_string(i), [this, &h, i] { holder_thread(&h, i == 0); })); }
  void chaos() { int n = draw(4); for (int i = 0; i < n; i++) { sleep_until(now() + 1 + (int64_t)drawlog(3000) * 1000000 + draw(1000000)); if (!faults()) break; Holder& h = H[draw((uint32_t)H.size())]; if (!h.up) continue;
      h.up = false; bool mid = false; for (Task* t : h.thr) { if (t->inlib) mid = true; t->st = Task::ABANDONED; } if (mid) cnt("fault.crash.inside_call"); cnt(h.synced ? "fault.crash.holder" : "fault.crash.before_sync"); ev("crash holder %d", h.id);
      sleep_until(now() + (int64_t)drawlog(500) * 1000000); if (chance(1, 2)) { h.impl ^= 1; cnt("holder.restarted_other_implementation"); } cnt("fault.restart"); start_holder(h); ev("restart holder %d", h.id); } }
  void client(int c, int nsess) {
    for (int s = 0; s < nsess; s++) {
      int hi = draw((uint32_t)H.size()); Holder& h = H[hi]; int sid = (int)S.size(); S.push_back(Session{c, hi}); Bytes pk; uint64_t nonce = 0; int tries = 0; int impl = draw(2);
      int64_t rto = 50000000 + (int64_t)draw(100) * 1000000; Bytes lastct;
      for (;;) {
        if (++tries > 400 || now() > tstop + 120000000000ll) violation("stuck-session", "session %d with holder %d not complete %ld ms after faults stopped", sid, hi, (long)((now() - tstop) / 1000000));
        if (pk.empty()) send(hi, 0, c, sid, nonce, Bytes(1)); else {
          if (S[sid].ct.empty() || chance(1, 5)) { Bytes m = blob(32), ct, ss; Kem* k = K_(impl, h.K); if (!call_enc_derand(k, pk, m, ct, ss)) violation("terminated", "%s enc terminated the process", k->name.c_str()); if (last_rc()) violation("failed-return", "%s enc returned %d", k->name.c_str(), last_rc());
            ev("client %d session %d enc %s m=%lx ct=%lx ss=%lx", c, sid, k->name.c_str(), hashb(m), hashb(ct), hashb(ss));
            truth[{pk, ct}] = {ss, sid}; S[sid].ct = ct; S[sid].ss = ss; owner[ss] = sid; cnt("sessions.encapsulations"); }
          send(hi, 2, c, sid, nonce, S[sid].ct); }
        int64_t until = now() + rto; bool got = false;
        while (!got) { auto& q = cin[c]; if (q.empty()) { if (now() >= until) break; block_until(&q, until); continue; }
          Msg m = q.front(); q.pop_front(); if (m.sess != sid) { cnt("client.stale_message"); continue; }
          if (m.type == 1 && pk.empty()) { if (m.body == h.disk_pk) { pk = m.body; got = true; } else if (m.body.size() == model::params(h.K).pkb() && draw(2)) { // a client without authentication encapsulates to whatever it received
              Bytes mm = blob(32), ct, ss; Kem* k = K_(impl, h.K); cnt("client.used_damaged_pk"); if (!call_enc_derand(k, m.body, mm, ct, ss)) violation("terminated", "%s enc terminated the process on a damaged public key", k->name.c_str()); ev("client %d session %d enc to damaged pk ct=%lx ss=%lx", c, sid, hashb(ct), hashb(ss)); owner[ss] = sid; send(hi, 2, c, sid, nonce, ct); }
            else cnt("client.rejected_damaged_pk"); }
          if (m.type == 3 && !S[sid].ss.empty()) { Bytes mac = S[sid].ss; mac.push_back(1); if (model::sha3_256(mac) == m.body) { S[sid].state = 1; break; } else cnt("client.confirmation_mismatch"); } }
        if (S[sid].state) break; if (!got) { cnt("client.timeouts"); }
      }
      cnt("sessions.completed"); ev("session %d complete after %d rounds", sid, tries); }
    if (--pending == 0) stop_schedule = true;
  }
  void run() override {
    preempt = chance(1, 4); flavor = preempt ? "tsan" : "ship"; if (preempt) cnt("runs.preemptive"); 
    int nh = 1 + draw(4), nc = 1 + draw(4); tstop = (int64_t)(1 + draw(8)) * 1000000000ll; bool calm = chance(1, 6); if (calm) { tstop = 0; cnt("runs.fault_free"); }
    pdrop = draw(2) ? draw(40) : 0; pdup = draw(2) ? draw(40) : 0; pdelay = draw(2) ? draw(50) : 0; pcorrupt = draw(2) ? draw(30) : 0;
    H.resize(nh); cin.resize(nc); S.reserve(1000); int sameK = draw(2) ? 2 + draw(3) : 0; for (int i = 0; i < nh; i++) { H[i].id = i; H[i].K = sameK ? sameK : 2 + draw(3); H[i].impl = draw(2); }
    if (preempt) { int scale = 6 + draw(10); slice_policy = [scale](Task*) -> int64_t { return chance(3, 4) ? 1 + (int64_t)drawlog(1u << scale) : 0; }; on_slice_end = [](Task*) { cnt("sched.preemptions"); if (chance(1, 4)) { cnt("fault.stalled_inside_call"); sleep_until(now() + 1 + (int64_t)drawlog(200) * 1000000); } else yield_now(); }; }
    sample("holders=%d clients=%d flavour=%s drop=%u%% dup=%u%% delay=%u%% corrupt=%u%% faults until %lds", nh, nc, flavor, pdrop, pdup, pdelay, pcorrupt, (long)(tstop / 1000000000));
    for (auto& h : H) start_holder(h); spawn("net", [this] { net_loop(); }); if (!calm) spawn("chaos", [this] { chaos(); });
    if (!calm && !preempt && draw(6) == 5) spawn("flooder", [this, nc] { for (int f = 0; f < 3 && faults(); f++) { sleep_until(now() + 1 + (int64_t)drawlog(2000) * 1000000); Holder& h = H[draw((uint32_t)H.size())]; if (!h.up || !h.synced) continue; int n = 20 + (int)drawlog(280); cnt("fault.net.flood"); ev("flood of %d at holder %d", n, h.id); for (int i = 0; i < n && h.up; i++) { Bytes b = blob(model::params(h.K).ctb()); std::vector<const Bytes*> c; for (auto& s : S) if (s.ct.size() == b.size()) c.push_back(&s.ct); if (!c.empty() && draw(2)) { b = *c[draw((uint32_t)c.size())]; damage(b, {}); } h.inbox.push_back(Msg{now(), seq++, h.id, 2, (int)draw(nc), 1 << 30, 0, b, true}); if (draw(4) == 3) yield_now(); } wake_all(&h); } });
    pending = nc; for (int c = 0; c < nc; c++) { int n = 1 + draw(preempt ? 2 : 4); spawn("client" + std::to_string(c), [this, c, n] { client(c, n); }); }
    schedule();
  }
};

// ---------------------------------------------------------------------------------------------- C02
struct Net02 : Scenario {
  std::string p; Net02(std::string p) : p(p) {}
  void load() override { for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) kem("ship", i, K); }
  struct Key { Bytes pk, sk; std::map<Bytes, Bytes> honest; };
  static void gen(const model::Params& P, Kem* k, Key& key, int how) {
    if (how == 0) { Bytes coins = blob(64); if (!call_keypair_derand(k, coins, key.pk, key.sk)) violation("terminated", "keypair terminated the process"); }
    else { Bytes rho = rndblob(32), z = blob(32); model::Vec s(P.k), e(P.k); Rng r(draw64()); int style = draw(3); for (int i = 0; i < P.k; i++) for (int j = 0; j < 256; j++) { s[i][j] = style == 0 ? 0 : style == 1 ? (r.below(3) + model::Q - 1) % model::Q : 1; e[i][j] = style == 2 ? 0 : (r.below(3) + model::Q - 1) % model::Q; } model::keypair_from(P, rho.data(), s, e, z.data(), key.pk, key.sk); cnt("keys.unusual"); }
  }
  void run() override {
    int K = 2 + draw(3); Kem* k[2] = {kem("ship", 0, K), kem("ship", 1, K)}; const model::Params& P = *k[0]->P; int first = draw(2);
    spawn("holder", [&, K, first] {
      Key a, b; gen(P, k[draw(2)], a, draw(4) == 3); gen(P, k[draw(2)], b, 0); std::vector<Bytes> cts, other; int nh = 1 + draw(3);
      for (int i = 0; i < nh; i++) { Bytes m = blob(32), ct, ss; if (!call_enc_derand(k[draw(2)], a.pk, m, ct, ss)) violation("terminated", "enc terminated the process"); a.honest[ct] = ss; cts.push_back(ct); Bytes m2 = chance(1, 2) ? m : blob(32); if (!call_enc_derand(k[draw(2)], b.pk, m2, ct, ss)) violation("terminated", "enc terminated the process"); other.push_back(ct); if (a.pk == b.pk) a.honest[ct] = ss; }
      std::vector<const Bytes*> oth; for (auto& c : other) oth.push_back(&c); for (auto& c : cts) oth.push_back(&c);
      std::vector<Bytes> sent; size_t walk = draw((uint32_t)(P.ctb() * 8)); int n = 40 + draw(120); sample("K=%d z=%s honest=%d deliveries=%d", K, hexs(Bytes(a.sk.end() - 32, a.sk.end())).c_str(), nh, n);
      // a sweep delivers every single-bit error of a window, to both implementations
      int sweep = draw(4) == 3 ? 1 + draw(2) : 0; size_t sw0 = 0, swl = 0; if (sweep) { const Bytes& c = cts[0]; size_t L = c.size(), pv = 32 * P.du * P.k; swl = std::min<size_t>(24, L); size_t r0 = draw((uint32_t)(L / 8)) * 8; size_t edge[6] = {0, L - swl, pv - swl / 2, 32 * (size_t)P.du - swl / 2, L - swl, L / 2}; sw0 = std::min(L - swl, sweep == 1 ? r0 : edge[draw(6)]); n = (int)swl * 16; cnt("sweeps"); }
      for (int i = 0; i < n; i++) { std::string what; Bytes c = cts[sweep ? 0 : draw((uint32_t)cts.size())]; int mode = sweep ? 8 : draw(8);
        if (mode == 8) { what = "swept-bit"; size_t q = sw0 * 8 + i / 2; c[q / 8] ^= 1 << (q % 8); cnt("fault.damage.swept-bit"); }
        else if (mode == 0) { what = "walking-bit"; size_t q = walk++ % (c.size() * 8); c[q / 8] ^= 1 << (q % 8); cnt("fault.damage.walking-bit"); }
        else if (mode == 1 && !sent.empty()) { what = "retry"; c = sent[draw((uint32_t)sent.size())]; cnt("fault.net.duplicate"); }
        else if (mode == 2 && chance(1, 3)) { what = "intact"; cnt("delivered.intact"); }
        else if (mode == 3) { what = damage(c, oth); what += "+" + damage(c, oth); }
        else what = damage(c, oth);
        if (draw(8) == 7) { // a copy reaches another key's holder in the same process first
          Bytes ss, w; Kem* kk = k[draw(2)]; model::dec(P, b.sk, c, w); R->steps++; cnt("checked.misdirected"); if (!call_dec(kk, b.sk, c, ss)) violation("terminated", "%s dec terminated the process on a misdirected ciphertext", kk->name.c_str()); if (last_rc()) violation("observable-reject", "%s dec returned %d for a misdirected ciphertext", kk->name.c_str(), last_rc()); if (ss != w) violation("wrong-rejection", "%s: ciphertext misdirected to another key: output %s, specified %s", kk->name.c_str(), hexs(ss).c_str(), hexs(w).c_str()); }
        if (!sweep) sent.push_back(c); now() += 100000; Kem* kk = k[sweep ? (first + i) & 1 : (first + draw(2)) & 1]; Bytes ss; R->steps++; sigmix(hashbytes(what.data(), what.size()) + kk->impl * 7 + K);
        if (!call_dec(kk, a.sk, c, ss)) violation("terminated", "%s dec terminated the process on a damaged ciphertext (%s)", kk->name.c_str(), what.c_str());
        auto it = a.honest.find(c); int rc = last_rc(); ev("%s dec %s -> rc=%d ss=%lx", kk->name.c_str(), what.c_str(), rc, hashb(ss));
        if (rc) violation("observable-reject", "%s dec returned %d for a %s ciphertext (%s)", kk->name.c_str(), rc, it == a.honest.end() ? "damaged" : "honest", what.c_str());
        if (it != a.honest.end()) { cnt("checked.honest"); if (ss != it->second) violation("secret-mismatch", "%s: honest ciphertext not accepted", kk->name.c_str()); continue; }
        if (draw(8) == 7 && !a.honest.empty()) { // nothing but the secret tells a rejection from an acceptance: errno, arithmetic flags, requests to the system, time spent in them
          static const int E[] = {0, EINTR, EINVAL, ENOMEM}; side_errno = E[draw(4)]; Bytes x; const Bytes& h = a.honest.begin()->first; auto side = [&](const Bytes& ct) { if (!call_dec(kk, a.sk, ct, x)) violation("terminated", "%s dec terminated the process", kk->name.c_str()); return last_side(); };
          Side h0 = side(h), r0 = side(c); cnt("checked.side_by_side"); if (!(h0 == r0)) { Side h1 = side(h), r1 = side(c), h2 = side(h), r2 = side(c); if (h1 == h2 && r1 == r2 && !(h1 == r1)) violation("observable-reject", "%s: besides the secret, dec tells a ciphertext damaged by %s from an honest one by %s", kk->name.c_str(), what.c_str(), h1.err != r1.err ? "errno" : h1.fp != r1.fp ? "the arithmetic status flags" : h1.trace != r1.trace ? "what it asks of the system (or prints)" : "waiting"); }
          side_errno = 0; }
        cnt("checked.damaged"); Bytes want = model::reject_secret(P, a.sk, c);
        if (ss != want) { for (auto& h : a.honest) if (h.second == ss) violation("accepted-forgery", "%s: ciphertext damaged by %s accepted: yields the honest session's secret", kk->name.c_str(), what.c_str());
          violation("wrong-rejection", "%s: ciphertext damaged by %s: output %s, rejection secret is %s", kk->name.c_str(), what.c_str(), hexs(ss).c_str(), hexs(want).c_str()); } }
      // after all that, the honest ones are still accepted
      for (auto& h : a.honest) for (int i = 0; i < 2; i++) { Bytes ss; now() += 100000; R->steps++; cnt("checked.honest_after_damage"); if (!call_dec(k[i], a.sk, h.first, ss)) violation("terminated", "%s dec terminated the process", k[i]->name.c_str()); if (last_rc() || ss != h.second) violation("secret-mismatch", "%s: honest ciphertext not accepted after %d damaged ones", k[i]->name.c_str(), n); } });
    schedule();
  }
};
// ---------------------------------------------------------------------------------------------- C03
static const int EDGE[] = {0, 1, 2, 1663, 1664, 1665, 1666, 3327, 3328, 3329, 3330, 4094, 4095, 2047, 2048, 832, 833, 2496, 2497, 127, 128, 255, 256};
static void coeffs(Bytes& b, size_t off, int npoly) {     // rewrite 12-bit coefficients with chosen values
  int style = draw(6); Rng r(draw64()); for (int p = 0; p < npoly; p++) { model::Poly f; for (int j = 0; j < 256; j++) { switch (style) { case 0: f[j] = EDGE[r.below(23)]; break; case 1: f[j] = 4095; break; case 2: f[j] = 3328; break; case 3: f[j] = 3329 + r.below(767); break; case 4: f[j] = r.below(4096); break; default: f[j] = r.below(2) ? 4095 : 0; } } model::encode(&b[off + 384 * p], f, 12); }
  cnt("fault.store.coefficients"); }
struct Net03 : Scenario {
  std::string p; Net03(std::string p) : p(p) {}
  std::vector<std::string> others;        // the same sources by other compilers and options
  void load() override { for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) kem("ship", i, K);
    for (std::string f : {"o0", "clang3", "clang0", "whole", "clangwhole"}) { bool all = true; for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) all &= have_lib(f + (i ? "_avx2_" : "_ref_") + std::to_string(K) + "_linux.so"); if (!all) continue; others.push_back(f); for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) kem(f, i, K); } }
  void same(Kem* k, const char* op, const char* field, const Bytes& got, const Bytes& want, const std::string& ctx) { cnt("checked.outputs"); if (got != want) { size_t i = 0; while (got[i] == want[i]) i++; violation("model-mismatch", "%s %s: %s differs from the specified scheme from byte %zu on (%02x, specified %02x); history: %s", k->name.c_str(), op, field, i, got[i], want[i], ctx.c_str()); } }
  void run() override {
    int K = 2 + draw(3); std::string fl = "ship"; if (int o = (int)draw(16); o >= 11 && o - 11 < (int)others.size()) fl = others[o - 11]; cnt(("build." + fl).c_str()); Kem* k[2] = {kem(fl, 0, K), kem(fl, 1, K)}; const model::Params& P = *k[0]->P;
    spawn("node", [&, K] {
      std::string ctx; std::vector<std::pair<Bytes, Bytes>> keys; std::vector<Bytes> cts;
      auto both = [&](std::function<void(Kem*)> f) { int o = draw(2); f(k[o]); f(k[1 - o]); };
      auto keygen = [&] { Bytes coins = blob(64), pk, sk; model::keygen(P, coins.data(), pk, sk); both([&](Kem* q) { Bytes a, b; if (!call_keypair_derand(q, coins, a, b)) violation("terminated", "keypair terminated"); if (last_rc()) violation("failed-return", "%s keypair returned %d", q->name.c_str(), last_rc()); same(q, "keypair", "public key", a, pk, ctx); same(q, "keypair", "secret key", b, sk, ctx); }); keys.push_back({pk, sk}); ctx += "keygen;"; ev("keygen %lx", hashb(pk)); };
      auto noisy = [&] { Bytes rho = rndblob(32), z = blob(32), pk, sk; model::Vec s(P.k), e(P.k); Rng r(draw64()); int st = draw(6); int B = 9 + draw(chance(1, 5) ? 60 : 15), Bs = 1 + draw(3); if (st == 3) { B = 1 + draw(3); Bs = 5 + draw(chance(1, 5) ? 60 : 12); }
        for (int i = 0; i < P.k; i++) for (int j = 0; j < 256; j++) { int sv = st == 0 ? 0 : st == 1 ? (j == 0 && i == 0) : (int)r.below(2 * Bs + 1) - Bs; int evv = (int)r.below(2 * B + 1) - B; s[i][j] = (sv + model::Q) % model::Q; e[i][j] = (evv + model::Q) % model::Q; }
        if (st >= 4) { // a single large error coefficient: most decoded coefficients sit just inside, on, or just outside the decision boundary
          int eta = P.k == 2 ? 3 : 2; B = (draw(4) == 3 ? 833 - (int)draw(130) : st == 5 ? 833 - (P.dv == 4 ? 104 : 52) + (int)draw(24) - 10 : 833 - (int)draw(6)) / eta; if (draw(8) == 7) B++; int pi = draw(P.k), pj = draw(256), sg = draw(2); for (int i = 0; i < P.k; i++) for (int j = 0; j < 256; j++) { s[i][j] = 0; e[i][j] = 0; } e[pi][pj] = sg ? B : model::Q - B; if (st == 5) s[draw(P.k)][draw(256)] = draw(2) ? 1 : model::Q - 1; cnt("fault.store.boundary_key"); }
        model::keypair_from(P, rho.data(), s, e, z.data(), pk, sk); keys.push_back({pk, sk}); char t[64]; snprintf(t, 64, "noisy-key(style %d,B=%d);", st, B); ctx += t; cnt("fault.store.noise"); ev("%s", t); };
      auto enc = [&](const Bytes& pk, int sparse = 0) { Bytes m = blob(32), ct, ss; if (sparse) { std::fill(m.begin(), m.end(), sparse == 2 ? 0xff : 0); for (int f = draw(6); f > 0; f--) m[draw(32)] ^= 1 << draw(8); } model::enc(P, pk, m.data(), ct, ss); both([&](Kem* q) { Bytes a, b; if (!call_enc_derand(q, pk, m, a, b)) violation("terminated", "enc terminated"); if (last_rc()) violation("failed-return", "%s enc returned %d", q->name.c_str(), last_rc()); same(q, "enc", "ciphertext", a, ct, ctx); same(q, "enc", "secret", b, ss, ctx); }); ev("enc %lx", hashb(ct)); cts.push_back(ct); return ct; };
      auto dec = [&](const Bytes& sk, const Bytes& ct) { Bytes ss; model::DecInfo di; model::dec(P, sk, ct, ss, &di); cnt(di.accepted ? "dec.accepted" : "dec.rejected"); if (di.accepted && di.minmargin <= 2) cnt("dec.accepted_at_decision_boundary"); if (di.accepted) { if (di.edges & 1) cnt("edge.832"); if (di.edges & 2) cnt("edge.833"); if (di.edges & 4) cnt("edge.2496"); if (di.edges & 8) cnt("edge.2497"); } if (di.accepted && di.minmargin < 60) cnt("dec.accepted_near_boundary"); cntmax("max.boundary_closeness", 833 - di.minmargin);
        both([&](Kem* q) { Bytes a; if (!call_dec(q, sk, ct, a)) violation("terminated", "dec terminated"); if (last_rc()) violation("failed-return", "%s dec returned %d", q->name.c_str(), last_rc()); same(q, "dec", di.accepted ? "secret (accepted)" : "secret (rejected)", a, ss, ctx); }); ev("dec %lx acc=%d", hashb(ss), di.accepted); };
      keygen(); int n = 3 + draw(6); 
      for (int i = 0; i < n; i++) { now() += 1000000; R->steps++; size_t c0 = ctx.size(); std::pair<Bytes, Bytes> key = keys[draw((uint32_t)keys.size())];
        switch (draw(9)) {
          case 0: keygen(); break;
          case 1: { Bytes ct = enc(key.first); dec(key.second, ct); } break;
          case 2: { noisy(); key = keys.back(); for (int t = 0; t < 4; t++) { Bytes ct = enc(key.first, draw(4)); dec(key.second, ct); } } break;
          case 3: { std::vector<const Bytes*> o; for (auto& q : keys) o.push_back(&q.first); Bytes pk = key.first; ctx += "pk:" + damage(pk, o) + ";"; enc(pk); } break;
          case 4: { Bytes pk = key.first; int np = 1 + draw(K), at = draw(K - np + 1); coeffs(pk, 384 * at, np); ctx += "pk:coefficients;"; enc(pk); } break;
          case 5: { Bytes ct = cts.empty() ? enc(key.first) : cts[draw((uint32_t)cts.size())]; std::vector<const Bytes*> o; for (auto& q : cts) o.push_back(&q); ctx += "ct:" + damage(ct, o) + ";"; dec(key.second, ct); } break;
          case 6: { Bytes sk = key.second; std::vector<const Bytes*> o; for (auto& q : keys) o.push_back(&q.second); ctx += "sk:" + damage(sk, o) + ";"; Bytes ct = enc(key.first); dec(sk, ct); if (chance(1, 2)) { ctx += "ct:" + damage(ct, {}) + ";"; dec(sk, ct); } } break;
          case 7: { Bytes sk = key.second; int np = 1 + draw(K), at = draw(K - np + 1); coeffs(sk, 384 * at + (chance(1, 3) ? 384 * K : 0), np); ctx += "sk:coefficients;"; Bytes ct = chance(1, 2) ? enc(key.first) : blob(P.ctb()); dec(sk, ct); } break;
          case 8: { // the holder's stored key keeps its secret part, but public part, hash and ciphertext match a damaged public key
            Bytes pk = key.first, sk = key.second; if (chance(1, 2)) coeffs(pk, 0, K); else damage(pk, {}); memcpy(&sk[384 * K], pk.data(), pk.size()); Bytes h = model::sha3_256(pk); memcpy(&sk[768 * K + 32], h.data(), 32); if (chance(1, 2)) memset(&sk[0], 0, 384 * K); ctx += "sk:consistent-damage;"; Bytes ct = enc(pk); dec(sk, ct); } break;
        }
        sigmix(hashbytes(ctx.data() + c0, ctx.size() - c0)); if (ctx.size() > 300) ctx.erase(0, ctx.size() - 300); }
      sample("K=%d %s", K, ctx.c_str()); });
    schedule();
  }
};
Scenario* sc_net(const std::string& p) { if (p == "C01") return new Net01(p); if (p == "C02") return new Net02(p); return new Net03(p); }
