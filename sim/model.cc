#include "model.h"
namespace model {
static inline uint64_t rol(uint64_t x, unsigned n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
static uint64_t RC[24]; static unsigned RHO[25]; static bool kinit = false;
static void kec_init() {                       // constants derived from the standard's LFSR / walk, not copied
  auto rcbit = [](int t) { t %= 255; if (!t) return 1; unsigned r = 1; for (int i = 0; i < t; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; } return (int)(r & 1); };
  for (int i = 0; i < 24; i++) { uint64_t v = 0; for (int j = 0; j <= 6; j++) if (rcbit(j + 7 * i)) v |= 1ull << ((1 << j) - 1); RC[i] = v; }
  int x = 1, y = 0; RHO[0] = 0;
  for (int t = 0; t < 24; t++) { RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
  kinit = true;
}
void keccakf(uint64_t a[25]) {
  if (!kinit) kec_init();
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], d[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
    for (int i = 0; i < 25; i++) a[i] ^= d[i % 5];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(a[x + 5 * y], RHO[x + 5 * y]);
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
    a[0] ^= RC[r];
  }
}
Keccak::Keccak(unsigned r) : rate(r), pos(0) { memset(a, 0, sizeof a); }
void Keccak::absorb(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) { a[pos / 8] ^= (uint64_t)p[i] << (8 * (pos % 8)); if (++pos == rate) { keccakf(a); pos = 0; } } }
void Keccak::finish(uint8_t s) { a[pos / 8] ^= (uint64_t)s << (8 * (pos % 8)); a[(rate - 1) / 8] ^= 0x80ull << 56; keccakf(a); pos = 0; }
void Keccak::squeeze(uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) { if (pos == rate) { keccakf(a); pos = 0; } p[i] = a[pos / 8] >> (8 * (pos % 8)); pos++; } }
Bytes hash(unsigned rate, uint8_t suf, const uint8_t* in, size_t n, size_t outlen) { Keccak k(rate); k.absorb(in, n); k.finish(suf); Bytes o(outlen); k.squeeze(o.data(), outlen); return o; }

static const Params P2{2, 3, 2, 10, 4}, P3{3, 2, 2, 10, 4}, P4{4, 2, 2, 11, 5};
const Params& params(int k) { return k == 2 ? P2 : k == 3 ? P3 : P4; }
Xof xof; std::function<bool(const uint8_t*, int, Bytes&)> prfhook;
static int Z[128], G[128]; static bool zinit = false;
static int powmod(int b, int e) { long r = 1, x = b; while (e) { if (e & 1) r = r * x % Q; x = x * x % Q; e >>= 1; } return (int)r; }
static int brv7(int i) { int r = 0; for (int j = 0; j < 7; j++) if (i >> j & 1) r |= 1 << (6 - j); return r; }
static void zi() { for (int i = 0; i < 128; i++) { Z[i] = powmod(17, brv7(i)); G[i] = powmod(17, 2 * brv7(i) + 1); } zinit = true; }
void ntt(Poly& f) { if (!zinit) zi(); int i = 1; for (int len = 128; len >= 2; len /= 2) for (int st = 0; st < 256; st += 2 * len) { int z = Z[i++]; for (int j = st; j < st + len; j++) { int t = z * f[j + len] % Q; f[j + len] = (f[j] + Q - t) % Q; f[j] = (f[j] + t) % Q; } } }
void intt(Poly& f) { if (!zinit) zi(); int i = 127; for (int len = 2; len <= 128; len *= 2) for (int st = 0; st < 256; st += 2 * len) { int z = Z[i--]; for (int j = st; j < st + len; j++) { int t = f[j]; f[j] = (t + f[j + len]) % Q; f[j + len] = z * ((f[j + len] + Q - t) % Q) % Q; } } for (auto& c : f) c = c * 3303 % Q; }
Poly basemul(const Poly& a, const Poly& b) { if (!zinit) zi(); Poly c; for (int i = 0; i < 128; i++) { long a0 = a[2 * i], a1 = a[2 * i + 1], b0 = b[2 * i], b1 = b[2 * i + 1]; c[2 * i] = (int)((a0 * b0 + a1 * b1 % Q * G[i]) % Q); c[2 * i + 1] = (int)((a0 * b1 + a1 * b0) % Q); } return c; }
Poly sample_ntt(const uint8_t in[34], size_t* used) {
  Poly p; int j = 0; size_t off = 0; Keccak k(168); if (!xof) { k.absorb(in, 34); k.finish(0x1f); }
  while (j < 256) { uint8_t c[3]; if (xof) xof(in, off, c, 3); else k.squeeze(c, 3); off += 3;
    int d1 = c[0] + 256 * (c[1] & 15), d2 = (c[1] >> 4) + 16 * c[2];
    if (d1 < Q) p[j++] = d1; if (d2 < Q && j < 256) p[j++] = d2; }
  if (used) *used = off; return p;
}
Poly cbd(const uint8_t* b, int eta) { Poly p; auto bit = [&](int i) { return b[i / 8] >> (i % 8) & 1; }; for (int i = 0; i < 256; i++) { int x = 0, y = 0; for (int j = 0; j < eta; j++) { x += bit(2 * i * eta + j); y += bit(2 * i * eta + eta + j); } p[i] = (x - y + Q) % Q; } return p; }
void encode(uint8_t* o, const Poly& p, int d) { memset(o, 0, 32 * d); for (int i = 0; i < 256; i++) for (int j = 0; j < d; j++) { int b = i * d + j; o[b / 8] |= (p[i] >> j & 1) << (b % 8); } }
Poly decode(const uint8_t* in, int d) { Poly p; for (int i = 0; i < 256; i++) { int v = 0; for (int j = 0; j < d; j++) { int b = i * d + j; v |= (in[b / 8] >> (b % 8) & 1) << j; } p[i] = v; } return p; }
static Poly modq(Poly p) { for (auto& c : p) c %= Q; return p; }
int compress(int x, int d) { return (int)((((long)x << d) + Q / 2) / Q) & ((1 << d) - 1); }
int decompress(int y, int d) { return (y * Q + (1 << (d - 1))) >> d; }
static void add(Poly& a, const Poly& b) { for (int i = 0; i < 256; i++) a[i] = (a[i] + b[i]) % Q; }
static Poly aij(const uint8_t* rho, int i, int j) { uint8_t in[34]; memcpy(in, rho, 32); in[32] = j; in[33] = i; return sample_ntt(in); }   // row i, column j
static Bytes prf(const uint8_t* s, int n, int eta) { Bytes in(s, s + 32); in.push_back((uint8_t)n); Bytes o; if (prfhook && prfhook(in.data(), eta, o)) return o; return shake256(in, 64 * eta); }
void keypair_from(const Params& P, const uint8_t rho[32], const Vec& s, const Vec& e, const uint8_t z[32], Bytes& pk, Bytes& sk) {
  int k = P.k; Vec sh = s, eh = e; for (auto& p : sh) ntt(p); for (auto& p : eh) ntt(p);
  pk.assign(P.pkb(), 0); sk.assign(P.skb(), 0);
  for (int i = 0; i < k; i++) { Poly t = eh[i]; for (int j = 0; j < k; j++) add(t, basemul(aij(rho, i, j), sh[j])); encode(&pk[384 * i], t, 12); encode(&sk[384 * i], sh[i], 12); }
  memcpy(&pk[384 * k], rho, 32); memcpy(&sk[384 * k], pk.data(), pk.size());
  Bytes h = sha3_256(pk); memcpy(&sk[768 * k + 32], h.data(), 32); memcpy(&sk[768 * k + 64], z, 32);
}
void keygen(const Params& P, const uint8_t coins[64], Bytes& pk, Bytes& sk) {
  Bytes in(coins, coins + 32); in.push_back((uint8_t)P.k); Bytes g = sha3_512(in); Vec s, e; int n = 0;
  for (int i = 0; i < P.k; i++) s.push_back(cbd(prf(&g[32], n++, P.eta1).data(), P.eta1));
  for (int i = 0; i < P.k; i++) e.push_back(cbd(prf(&g[32], n++, P.eta1).data(), P.eta1));
  keypair_from(P, g.data(), s, e, coins + 32, pk, sk);
}
Bytes pke_enc(const Params& P, const uint8_t* pk, const uint8_t* m, const uint8_t* r) {
  int k = P.k, n = 0; Vec y, t; const uint8_t* rho = pk + 384 * k; Bytes ct(P.ctb());
  for (int i = 0; i < k; i++) { y.push_back(cbd(prf(r, n++, P.eta1).data(), P.eta1)); ntt(y[i]); t.push_back(modq(decode(pk + 384 * i, 12))); }
  for (int i = 0; i < k; i++) { Poly e1 = cbd(prf(r, n++, P.eta2).data(), P.eta2), u{}; for (int j = 0; j < k; j++) add(u, basemul(aij(rho, j, i), y[j])); intt(u); add(u, e1);
    for (auto& c : u) c = compress(c, P.du); encode(&ct[32 * P.du * i], u, P.du); }
  Poly e2 = cbd(prf(r, n++, P.eta2).data(), P.eta2), v{}; for (int j = 0; j < k; j++) add(v, basemul(t[j], y[j])); intt(v); add(v, e2);
  for (int i = 0; i < 256; i++) v[i] = compress((v[i] + (m[i / 8] >> (i % 8) & 1) * ((Q + 1) / 2)) % Q, P.dv);
  encode(&ct[32 * P.du * k], v, P.dv); return ct;
}
static Bytes gfun(const uint8_t* m, const uint8_t* h) { Bytes in(m, m + 32); in.insert(in.end(), h, h + 32); return sha3_512(in); }
void enc(const Params& P, const Bytes& pk, const uint8_t m[32], Bytes& ct, Bytes& ss) { Bytes h = sha3_256(pk), g = gfun(m, h.data()); ct = pke_enc(P, pk.data(), m, &g[32]); ss.assign(g.begin(), g.begin() + 32); }
Bytes reject_secret(const Params& P, const Bytes& sk, const Bytes& ct) { Bytes in(sk.end() - 32, sk.end()); in.insert(in.end(), ct.begin(), ct.end()); return shake256(in, 32); }
void dec(const Params& P, const Bytes& sk, const Bytes& ct, Bytes& ss, DecInfo* info) {
  int k = P.k; Poly w{}; for (int j = 0; j < k; j++) { Poly u = decode(&ct[32 * P.du * j], P.du); for (auto& c : u) c = decompress(c, P.du); ntt(u); add(w, basemul(modq(decode(&sk[384 * j], 12)), u)); }
  intt(w); Poly v = decode(&ct[32 * P.du * k], P.dv); uint8_t m[32] = {0}; int mm = Q; unsigned edges = 0;
  for (int i = 0; i < 256; i++) { int x = (decompress(v[i], P.dv) + Q - w[i]) % Q; m[i / 8] |= compress(x, 1) << (i % 8); 
    edges |= (x == 832) | (x == 833) << 1 | (x == 2496) << 2 | (x == 2497) << 3;
    int c = x > Q / 2 ? Q - x : x; int d = c - Q / 4; if (d < 0) d = -d; if (d < mm) mm = d; }
  Bytes g = gfun(m, &sk[768 * k + 32]); Bytes c2 = pke_enc(P, &sk[384 * k], m, &g[32]); bool ok = c2 == ct;
  if (ok) ss.assign(g.begin(), g.begin() + 32); else ss = reject_secret(P, sk, ct);
  if (info) { info->accepted = ok; info->m.assign(m, m + 32); info->minmargin = mm; info->edges = edges; }
}
static uint8_t SB[256]; static bool sbi = false;
static uint8_t xt(uint8_t x) { return (x << 1) ^ (x & 0x80 ? 0x1b : 0); }
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static void sbinit() { for (int i = 0; i < 256; i++) { uint8_t inv = 0; if (i) for (int j = 1; j < 256; j++) if (gm(i, j) == 1) inv = j; uint8_t s = 0x63; for (int b = 0; b < 5; b++) s ^= (uint8_t)(inv << b | inv >> (8 - b)); SB[i] = s; } sbi = true; }
void aes256_enc(const uint8_t key[32], const uint8_t in[16], uint8_t out[16]) {
  if (!sbi) sbinit(); uint8_t w[240]; memcpy(w, key, 32); uint8_t rc = 1;
  for (int i = 8; i < 60; i++) { uint8_t t[4]; memcpy(t, w + 4 * (i - 1), 4); if (i % 8 == 0) { uint8_t x = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[x]; rc = xt(rc); } else if (i % 8 == 4) for (auto& b : t) b = SB[b]; for (int j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - 8) + j] ^ t[j]; }
  uint8_t s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (int r = 1; r <= 14; r++) { uint8_t t[16]; for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) t[4 * c + q] = SB[s[4 * ((c + q) % 4) + q]];
    if (r < 14) for (int c = 0; c < 4; c++) { uint8_t* p = t + 4 * c; uint8_t a0 = p[0], a1 = p[1], a2 = p[2], a3 = p[3]; p[0] = xt(a0) ^ xt(a1) ^ a1 ^ a2 ^ a3; p[1] = a0 ^ xt(a1) ^ xt(a2) ^ a2 ^ a3; p[2] = a0 ^ a1 ^ xt(a2) ^ xt(a3) ^ a3; p[3] = xt(a0) ^ a0 ^ a1 ^ a2 ^ xt(a3); }
    for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i]; }
  memcpy(out, s, 16);
}
static void inc(uint8_t* v, int lo) { for (int i = 15; i >= lo; i--) if (++v[i]) break; }
void Drbg::update(const uint8_t* d) { uint8_t t[48]; for (int i = 0; i < 3; i++) { inc(v, 0); aes256_enc(key, v, t + 16 * i); } if (d) for (int i = 0; i < 48; i++) t[i] ^= d[i]; memcpy(key, t, 32); memcpy(v, t + 32, 16); }
void Drbg::init(const uint8_t* e, const uint8_t* p) { uint8_t s[48]; for (int i = 0; i < 48; i++) s[i] = e[i] ^ (p ? p[i] : 0); memset(key, 0, 32); memset(v, 0, 16); update(s); }
void Drbg::gen(uint8_t* o, size_t n) { while (n) { uint8_t b[16]; inc(v, 0); aes256_enc(key, v, b); size_t c = n < 16 ? n : 16; memcpy(o, b, c); o += c; n -= c; } update(nullptr); }
void Expander::init(const uint8_t* s, const uint8_t* d, uint64_t m) { memcpy(key, s, 32); memcpy(ctr, d, 8); for (int i = 0; i < 4; i++) ctr[8 + i] = m >> (8 * (3 - i)); memset(ctr + 12, 0, 4); pos = 16; remaining = m; }
void Expander::take(uint8_t* o, size_t n) { remaining -= n; for (size_t i = 0; i < n; i++) { if (pos == 16) { aes256_enc(key, ctr, buf); inc(ctr, 12); pos = 0; } o[i] = buf[pos++]; } }
std::string hex(const uint8_t* p, size_t n) { static const char* H = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += H[p[i] >> 4]; s += H[p[i] & 15]; } return s; }
}
