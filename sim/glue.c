/* compiled against the repository's headers; exports sizes the simulator needs */
#include <stddef.h>
#include <stdint.h>
#include "kem.h"
#include "fips202.h"
#ifdef SIM_AVX2
#include "fips202x4.h"
const unsigned sim_sizeof_keccakx4_state = sizeof(keccakx4_state);
#endif
const unsigned sim_sizeof_keccak_state = sizeof(keccak_state);
const unsigned sim_sizes[5] = { CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES, KYBER_K };
