/* FAMILIES: ref uref avx vavx x4 */
#include <stddef.h>
#include "rng.h"
int vf_real_randombytes(unsigned char *x, unsigned long long n);
int vf_drbg_bytes(unsigned char *x, unsigned long long n) { return vf_real_randombytes(x, n); }
void vf_drbg_init(unsigned char *e, unsigned char *p, int s) { randombytes_init(e, p, s); }
unsigned long vf_xof_size(void) { return sizeof(AES_XOF_struct); }
int vf_xof_init(void *c, unsigned char *seed, unsigned char *div, unsigned long max) { return seedexpander_init((AES_XOF_struct *)c, seed, div, max); }
int vf_xof_read(void *c, unsigned char *x, unsigned long n) { return seedexpander((AES_XOF_struct *)c, x, n); }
const int vf_rng_codes[4] = {RNG_SUCCESS, RNG_BAD_MAXLEN, RNG_BAD_OUTBUF, RNG_BAD_REQ_LEN};
