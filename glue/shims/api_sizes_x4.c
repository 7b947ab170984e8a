/* FAMILIES: x4 */
#include "apiorig.h"
const long vf_apiorig_sizes[4] = {CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES};
