/* FAMILIES: ref avx uref vavx x4 */
/* the sizes a user sees who includes only the public header */
#include "api.h"
const long vf_api_sizes[4] = {CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES};
