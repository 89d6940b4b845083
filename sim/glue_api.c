/* Compiled once per implementation and parameter set against the published header api.h and the internal header kem.h together:
   the compiler rejects prototypes that contradict each other; the sizes both publish are exported for the simulator. */
#include <stddef.h>
#include <stdint.h>
#include "api.h"
#include "kem.h"
#define P3(a,b,c) a##b##c
#define P2(a,b,c) P3(a,b,c)
#define NAME(s) P2(SIM_BASE, SIM_IMPL, s)
#define CATX(a,b) a##b
#define CAT(a,b) CATX(a,b)
const unsigned CAT(SIM_TAG, sizes)[11] = {
  NAME(_PUBLICKEYBYTES), NAME(_SECRETKEYBYTES), NAME(_CIPHERTEXTBYTES), NAME(_BYTES), NAME(_KEYPAIRCOINBYTES), NAME(_ENCCOINBYTES),
  CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES, KYBER_K };
/* the documented call signatures */
int (*const CAT(SIM_TAG, f1))(uint8_t *, uint8_t *) = NAME(_keypair);
int (*const CAT(SIM_TAG, f2))(uint8_t *, uint8_t *, const uint8_t *) = NAME(_keypair_derand);
int (*const CAT(SIM_TAG, f3))(uint8_t *, uint8_t *, const uint8_t *) = NAME(_enc);
int (*const CAT(SIM_TAG, f4))(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *) = NAME(_enc_derand);
int (*const CAT(SIM_TAG, f5))(uint8_t *, const uint8_t *, const uint8_t *) = NAME(_dec);
