/* FAMILIES: uref */
#include <stddef.h>
#include "aes256ctr.h"
void vf_aes_nonce12(unsigned char *o, unsigned long long on, const unsigned char *key, const unsigned char *nonce) { aes256ctr_prf(o, on, key, nonce); }
/* blocks of 64 bytes, requested in steps given by the caller */
void vf_aes_incremental(unsigned char *o, const unsigned long *steps, unsigned long nsteps, const unsigned char *key, const unsigned char *nonce)
{
	aes256ctr_ctx c;
	unsigned long i;
	aes256ctr_init(&c, key, nonce);
	for (i = 0; i < nsteps; i++)
	{
		aes256ctr_squeezeblocks(o, steps[i], &c);
		o += steps[i] * 64;
	}
}
