#include "ops.h"
#include "damage.h"
// a previously seen value, unchanged or changed in one place, or a fresh one
Bytes OpGen::pick(std::vector<Bytes>& v, size_t n, std::function<Bytes()> fresh) {
  Bytes b; int c = v.empty() ? 0 : draw(related ? 6 : 3); std::vector<Bytes*> same; for (auto& x : v) if (x.size() == n) same.push_back(&x); if (same.empty()) c = 0;
  if (c == 0) b = fresh();
  else { b = *same[same.size() - 1 - (draw(2) ? 0 : draw((uint32_t)same.size()))];
    if (c >= 2 && n) switch (draw(7)) { case 0: b[draw((uint32_t)n)] ^= 1 << draw(8); break; case 1: b[n - 1 - draw((uint32_t)std::min<size_t>(n, 33))] ^= 1 << draw(8); break; case 2: b[draw((uint32_t)std::min<size_t>(n, 33))] ^= 1 << draw(8); break;
      case 3: { const Bytes& o = *same[draw((uint32_t)same.size())]; size_t p = draw((uint32_t)n); std::copy(o.begin() + p, o.end(), b.begin() + p); } break; case 4: { size_t p = draw((uint32_t)n); Rng r(draw64()); for (size_t i = p; i < n; i++) b[i] = r.next(); } break;
      case 5: { size_t p = n > 32 ? n - 32 : 0; Rng r(draw64()); for (size_t i = p; i < n; i++) b[i] = r.next(); } break; case 6: { size_t w = std::min<size_t>(n, 32); size_t p = w * draw((uint32_t)(n / w)); Rng r(draw64()); for (size_t i = p; i < p + w; i++) b[i] = r.next(); } break; } 
    cnt(c >= 2 ? "args.related" : "args.repeated"); }
  if (v.size() < 24) v.push_back(b); else v[draw(24)] = b; return b; }
static size_t hlen(size_t max) { static const size_t E[] = {0, 1, 7, 8, 9, 71, 72, 73, 135, 136, 137, 143, 144, 167, 168, 169, 175, 176, 271, 272, 273, 335, 336, 337, 503, 504, 505, 32, 33, 34, 64, 128, 840}; size_t n = draw(3) ? E[draw(33)] : (size_t)draw((uint32_t)max); return std::min(n, max); }
Op OpGen::make(Kem* k) { int tot = 0; for (int i = 0; i < OP_N; i++) tot += weights[i]; int w = draw(tot), kind = 0; while (w >= weights[kind]) w -= weights[kind++]; if ((kind == OP_X4 || kind == OP_X4INC) && !k->hash.x4) kind -= 2; return make(k, kind); }
static std::vector<size_t> split(size_t n) { std::vector<size_t> v; int m = 1 + draw(4); size_t left = n; for (int i = 0; i < m - 1; i++) { size_t p = draw(3) == 0 ? std::min<size_t>(left, (size_t[]){0, 1, 7, 8, 72, 136, 168, 167, 169}[draw(9)]) : draw((uint32_t)left + 1); v.push_back(p); left -= p; } v.push_back(left); return v; }
Op OpGen::make(Kem* k, int kind) {
  Op o; o.k = k; o.kind = kind; Pool& P = pools[k->K]; const model::Params* M = k->P; auto in = [&](const Bytes& b, const char* n, size_t al = 1) { o.a.push_back({IN, b, n, al}); }; auto out = [&](size_t n, const char* s) { o.a.push_back({OUT, Bytes(n), s, 1}); }; 
  auto rnd = [](size_t n) { return [n] { return blob(n); }; };
  if ((kind == OP_DEC || kind == OP_ENC || kind == OP_ENC_D) && P.sks.empty() && draw(4)) { Bytes c = blob(64), pk, sk; model::keygen(*M, c.data(), pk, sk); P.pks.push_back(pk); P.sks.push_back(sk); P.genuine.push_back(sk); }   // calls on genuine keys even when no key pair is made in this history
  switch (kind) {
    case OP_KEYPAIR_D: { Bytes c = pick(P.coins, 64, rnd(64)); out(k->pkb, "pk"); out(k->skb, "sk"); in(c, "coins"); o.name = "keypair_derand"; o.call = [k](u8** p) { return k->keypair_derand(p[0], p[1], p[2]); }; o.fn = (void*)k->keypair_derand; o.cargs = {0, 1, 2}; model::keygen(*M, c.data(), o.a[0].v, o.a[1].v); P.pks.push_back(o.a[0].v); P.sks.push_back(o.a[1].v); if (P.genuine.size() < 8) P.genuine.push_back(o.a[1].v); else P.genuine[draw(8)] = o.a[1].v; if (P.pks.size() > 40) P.pks.erase(P.pks.begin()); if (P.sks.size() > 40) P.sks.erase(P.sks.begin()); } break;
    case OP_ENC_D: { Bytes pk = pick(P.pks, k->pkb, rnd(k->pkb)), m = pick(P.msgs, 32, rnd(32)); out(k->ctb, "ct"); out(32, "ss"); in(pk, "pk"); in(m, "coins"); o.name = "enc_derand"; o.call = [k](u8** p) { return k->enc_derand(p[0], p[1], p[2], p[3]); }; o.fn = (void*)k->enc_derand; o.cargs = {0, 1, 2, 3}; model::enc(*M, pk, m.data(), o.a[0].v, o.a[1].v); P.cts.push_back(o.a[0].v); if (P.cts.size() > 40) P.cts.erase(P.cts.begin()); } break;
    case OP_DEC: { Bytes sk, ct; if (!P.genuine.empty() && draw(2)) sk = P.genuine[draw((uint32_t)P.genuine.size())]; else sk = pick(P.sks, k->skb, rnd(k->skb));
        if (draw(2)) { Bytes pk(sk.begin() + 384 * k->K, sk.begin() + 768 * k->K + 32), m = pick(P.msgs, 32, rnd(32)), s; model::enc(*M, pk, m.data(), ct, s); if (draw(3) == 2) ct[draw((uint32_t)ct.size())] ^= 1 << draw(8); P.cts.push_back(ct); } else ct = pick(P.cts, k->ctb, rnd(k->ctb));
        out(32, "ss"); in(ct, "ct"); in(sk, "sk"); o.name = "dec"; o.call = [k](u8** p) { return k->dec(p[0], p[1], p[2]); }; o.fn = (void*)k->dec; o.cargs = {0, 1, 2}; model::DecInfo di; model::dec(*M, sk, ct, o.a[0].v, &di); cnt(di.accepted ? "args.accepted_ciphertext" : "args.rejected_ciphertext"); } break;
    case OP_KEYPAIR: out(k->pkb, "pk"); out(k->skb, "sk"); o.name = "keypair"; o.random = true; o.call = [k](u8** p) { return k->keypair(p[0], p[1]); }; o.fn = (void*)k->keypair; o.cargs = {0, 1}; break;
    case OP_ENC: { Bytes pk = pick(P.pks, k->pkb, rnd(k->pkb)); out(k->ctb, "ct"); out(32, "ss"); in(pk, "pk"); o.name = "enc"; o.random = true; o.call = [k](u8** p) { return k->enc(p[0], p[1], p[2]); }; o.fn = (void*)k->enc; o.cargs = {0, 1, 2}; } break;
    case OP_RANDOM: { size_t n = hlen(600); out(n, "out"); o.name = "randombytes"; o.random = true; o.call = [k, n](u8** p) { k->randombytes(p[0], n); return 0; }; } break;
    case OP_SHAKE: { int s = draw(2); size_t n = hlen(maxhash), m = hlen(maxhash); Bytes b = pick(P.in, n, rnd(n)); out(m, "out"); in(b, "in"); o.name = s ? "shake256" : "shake128"; Hash* h = &k->hash; o.call = [h, s, m, n](u8** p) { h->shake[s](p[0], m, p[1], n); return 0; }; o.a[0].v = s ? model::shake256(b, m) : model::shake128(b, m); } break;
    case OP_SHA3: { int s = draw(2); size_t n = hlen(maxhash); Bytes b = pick(P.in, n, rnd(n)); out(s ? 64 : 32, "h"); in(b, "in"); o.name = s ? "sha3_512" : "sha3_256"; Hash* h = &k->hash; o.call = [h, s, n](u8** p) { h->sha3[s](p[0], p[1], n); return 0; }; o.fn = (void*)h->sha3[s]; o.cargs = {0, 1, -1 - (long)n}; o.a[0].v = s ? model::sha3_512(b) : model::sha3_256(b); } break;
    case OP_INC: { int s = draw(2); size_t n = hlen(maxhash), m = hlen(maxhash); Bytes b = pick(P.in, n, rnd(n)); out(m, "out"); in(b, "in"); o.a.push_back({STATE, Bytes(k->hash.st), "state", 8}); o.name = s ? "shake256 session" : "shake128 session"; Hash* h = &k->hash; auto si = split(n), so = split(m); bool once = draw(3) == 2;
        o.call = [h, s, n, m, si, so, once](u8** p) { if (once) h->shake_absorb_once[s](p[2], p[1], n); else { h->shake_init[s](p[2]); size_t q = 0; for (size_t x : si) { h->shake_absorb[s](p[2], p[1] + q, x); q += x; } h->shake_finalize[s](p[2]); } size_t q = 0; for (size_t x : so) { h->shake_squeeze[s](p[0] + q, x, p[2]); q += x; } return 0; }; o.a[0].v = s ? model::shake256(b, m) : model::shake128(b, m); } break;
    case OP_X4: { int s = draw(2); size_t n = hlen(maxhash), m = hlen(maxhash); for (int i = 0; i < 4; i++) out(m, (const char*[]){"out0", "out1", "out2", "out3"}[i]); for (int i = 0; i < 4; i++) { Bytes b = pick(P.in, n, rnd(n)); in(b, (const char*[]){"in0", "in1", "in2", "in3"}[i]); o.a[i].v = s ? model::shake256(b, m) : model::shake128(b, m); } o.name = s ? "shake256x4" : "shake128x4"; Hash* h = &k->hash; o.call = [h, s, n, m](u8** p) { h->x4_shake[s](p[0], p[1], p[2], p[3], m, p[4], p[5], p[6], p[7], n); return 0; }; } break;
    case OP_X4INC: { int s = draw(2); size_t n = hlen(maxhash), nb = draw(6), r = RATE[s], m = nb * r; for (int i = 0; i < 4; i++) out(m, (const char*[]){"out0", "out1", "out2", "out3"}[i]); for (int i = 0; i < 4; i++) { Bytes b = pick(P.in, n, rnd(n)); in(b, (const char*[]){"in0", "in1", "in2", "in3"}[i]); o.a[i].v = s ? model::shake256(b, m) : model::shake128(b, m); } o.a.push_back({STATE, Bytes(k->hash.stx4), "state", 32}); o.name = s ? "shake256x4 blocks" : "shake128x4 blocks"; Hash* h = &k->hash; size_t first = nb ? draw((uint32_t)nb + 1) : 0;
        o.call = [h, s, n, nb, first, r](u8** p) { h->x4_absorb_once[s](p[8], p[4], p[5], p[6], p[7], n); h->x4_squeezeblocks[s](p[0], p[1], p[2], p[3], first, p[8]); h->x4_squeezeblocks[s](p[0] + first * r, p[1] + first * r, p[2] + first * r, p[3] + first * r, nb - first, p[8]); return 0; }; } break;
  }
  return o;
}
void op_expect(Op& o, const Bytes& e) {
  if (!o.random) return; Kem* k = o.k;
  if (o.kind == OP_KEYPAIR) { if (e.size() < 64) violation("entropy", "%s keypair used %zu bytes of entropy", k->name.c_str(), e.size()); model::keygen(*k->P, e.data(), o.a[0].v, o.a[1].v); }
  if (o.kind == OP_ENC) { if (e.size() < 32) violation("entropy", "%s enc used %zu bytes of entropy", k->name.c_str(), e.size()); model::enc(*k->P, o.a[2].v, e.data(), o.a[0].v, o.a[1].v); }
  if (o.kind == OP_RANDOM) { if (e.size() < o.a[0].v.size()) violation("entropy", "%s randombytes(%zu) fetched %zu bytes", k->name.c_str(), o.a[0].v.size(), e.size()); o.a[0].v.assign(e.begin(), e.begin() + o.a[0].v.size()); }
}
