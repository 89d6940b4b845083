// Validates the reference model: prints the repository's published test-vector stream for one parameter set,
// computed by the model alone (its SHA-256 is compared with /repo/SHA256SUMS by tools/selftest.py).
#include "model.h"
#include <cstdio>
#include <cstdlib>
#include "zeros4g.h"
using namespace model;
int main(int c, char** v) {
  if (c == 3 && !strcmp(v[1], "aes")) { uint8_t k[32], p[16], o[16]; for (int i = 0; i < 32; i++) k[i] = i; for (int i = 0; i < 16; i++) p[i] = i * 17; aes256_enc(k, p, o); puts(hex(o, 16).c_str()); puts(hex(o, 16) == "8ea2b7ca516745bfeafc49904b496089" ? "AES-256 ok" : "AES-256 wrong"); return 0; }
  if (c == 3 && !strcmp(v[1], "hash")) { Bytes in; for (const char* q = v[2]; q[0] && q[0] != '-'; q += 2) in.push_back((uint8_t)strtol(std::string(q, 2).c_str(), nullptr, 16)); for (const Bytes& o : {shake128(in, 500), shake256(in, 500), sha3_256(in), sha3_512(in)}) puts(hex(o.data(), o.size()).c_str()); return 0; }
  if (c == 3 && !strcmp(v[1], "z4g")) { unsigned r = atoi(v[2]); Keccak q(r); memcpy(q.a, r == 168 ? Z4G_168 : r == 136 ? Z4G_136 : Z4G_72, 200); q.absorb((const uint8_t*)"end", 3); q.finish(r == 72 ? 0x06 : 0x1f); Bytes o(64); q.squeeze(o.data(), 64); puts(hex(o.data(), 64).c_str()); return 0; }
  int k = atoi(v[1]), n = atoi(v[2]); const Params& P = params(k); Keccak r(168); r.finish(0x1f);
  // the repo's generator starts with pos = rate: one permutation before the first byte, as finish() does
  auto P1 = [](const char* t, const Bytes& b) { printf("%s: %s\n", t, hex(b.data(), b.size()).c_str()); };
  for (int i = 0; i < n; i++) { Bytes coins(64), m(32), pk, sk, ct, s1, s2, cr(P.ctb());
    r.squeeze(coins.data(), 64); keygen(P, coins.data(), pk, sk); P1("Public Key", pk); P1("Secret Key", sk);
    r.squeeze(m.data(), 32); enc(P, pk, m.data(), ct, s1); P1("Ciphertext", ct); P1("Shared Secret B", s1); dec(P, sk, ct, s2); P1("Shared Secret A", s2);
    r.squeeze(cr.data(), cr.size()); dec(P, sk, cr, s2); P1("Pseudorandom shared Secret A", s2); }
}
