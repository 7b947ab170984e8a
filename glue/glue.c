/* Linked into every host build: a randombytes() whose source the harness chooses per thread, the
   sizes the build's own header declares, and the cycle counter the tests otherwise supply. */
#include <stdint.h>
#include <stddef.h>
#include "SABER_params.h"
#ifndef CRYPTO_BYTES
#include "api.h"
#endif
typedef int (*vf_rng_fn)(void *, unsigned char *, unsigned long long);
static __thread vf_rng_fn vf_rng;
static __thread void *vf_rng_ctx;
int vf_real_randombytes(unsigned char *x, unsigned long long n);
__attribute__((visibility("default"))) void vf_set_rng(vf_rng_fn f, void *ctx) { vf_rng = f; vf_rng_ctx = ctx; }
int randombytes(unsigned char *x, unsigned long long n)
{
	return vf_rng ? vf_rng(vf_rng_ctx, x, n) : vf_real_randombytes(x, n);
}
__attribute__((weak)) long long cpucycles(void) { return 0; }
const long vf_sizes[4] = {CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES};
const long vf_params[4] = {VF_L, VF_UNI, VF_N90, VF_LANES};
