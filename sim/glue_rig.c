#include "rng.h"
const unsigned sim_sizeof_xof = sizeof(AES_XOF_struct);
