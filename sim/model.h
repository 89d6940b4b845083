// Independent reference models: FIPS 202, FIPS 203 (ML-KEM, coefficients taken mod q), AES-256, SP800-90A CTR-DRBG,
// NIST seed expander.  Written from the standards; shares no code with the repository.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <array>
namespace model {
typedef std::vector<uint8_t> Bytes;
struct Keccak {               // sponge with explicit position; absorb/finish/squeeze
  uint64_t a[25]; unsigned rate, pos; 
  explicit Keccak(unsigned rate_);
  void absorb(const uint8_t* p, size_t n);
  void finish(uint8_t suffix);
  void squeeze(uint8_t* p, size_t n);
};
void keccakf(uint64_t a[25]);
Bytes hash(unsigned rate, uint8_t suffix, const uint8_t* in, size_t n, size_t outlen);
inline Bytes shake128(const Bytes& in, size_t n) { return hash(168, 0x1f, in.data(), in.size(), n); }
inline Bytes shake256(const Bytes& in, size_t n) { return hash(136, 0x1f, in.data(), in.size(), n); }
inline Bytes sha3_256(const Bytes& in) { return hash(136, 0x06, in.data(), in.size(), 32); }
inline Bytes sha3_512(const Bytes& in) { return hash(72, 0x06, in.data(), in.size(), 64); }

const int Q = 3329, N = 256;
typedef std::array<int, 256> Poly;      // coefficients in [0,Q)
typedef std::vector<Poly> Vec;
struct Params { int k, eta1, eta2, du, dv;
  size_t pkb() const { return 384u * k + 32; } size_t skb() const { return 768u * k + 96; }
  size_t ctb() const { return 32u * (du * k + dv); } };
const Params& params(int k);
// stream used for matrix expansion: fill out[0..n) with bytes off.. of the stream for (rho, x, y)
typedef std::function<void(const uint8_t in34[34], size_t off, uint8_t* out, size_t n)> Xof;
extern std::function<bool(const uint8_t* in, int eta, Bytes& out)> prfhook;
extern Xof xof;                          // empty = SHAKE128
void ntt(Poly& p); void intt(Poly& p); Poly basemul(const Poly& a, const Poly& b);
Poly sample_ntt(const uint8_t in34[34], size_t* used = nullptr);
Poly cbd(const uint8_t* b, int eta);
void encode(uint8_t* out, const Poly& p, int d); Poly decode(const uint8_t* in, int d);   // decode: raw d-bit values
int compress(int x, int d); int decompress(int y, int d);
void keygen(const Params&, const uint8_t coins[64], Bytes& pk, Bytes& sk);
void enc(const Params&, const Bytes& pk, const uint8_t m[32], Bytes& ct, Bytes& ss);
struct DecInfo { bool accepted; Bytes m; unsigned edges = 0; int minmargin; };
void dec(const Params&, const Bytes& sk, const Bytes& ct, Bytes& ss, DecInfo* info = nullptr);
Bytes reject_secret(const Params&, const Bytes& sk, const Bytes& ct);
Bytes pke_enc(const Params&, const uint8_t* pk, const uint8_t* m, const uint8_t* r);
// key pair from explicit rho, s, e, z (for damaged / noisy keys)
void keypair_from(const Params&, const uint8_t rho[32], const Vec& s, const Vec& e, const uint8_t z[32], Bytes& pk, Bytes& sk);

void aes256_enc(const uint8_t key[32], const uint8_t in[16], uint8_t out[16]);
struct Drbg { uint8_t key[32], v[16];
  void init(const uint8_t entropy[48], const uint8_t* pers); void gen(uint8_t* out, size_t n); void update(const uint8_t* data); };
struct Expander { uint8_t key[32], ctr[16]; uint8_t buf[16]; unsigned pos; uint64_t remaining;
  void init(const uint8_t seed[32], const uint8_t div[8], uint64_t maxlen); void take(uint8_t* out, size_t n); };
std::string hex(const uint8_t* p, size_t n);
}
