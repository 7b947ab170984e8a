/* Runs one KEM operation under valgrind with its secret inputs marked as undefined: memcheck then
   reports every branch and every memory address that depends on them.
   usage: ctdriver LIB CASE OUT   CASE: op, lanes, then length-prefixed buffers rnd, pk, ct, sk,
   count and (offset, length) of the secret parts of sk. */
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valgrind/memcheck.h>
static uint8_t *rnd;
static uint32_t rnd_n, rnd_pos;
static int mark = 1;
static int feed(void *ctx, unsigned char *x, unsigned long long n)
{
	for (unsigned long long i = 0; i < n; i++)
		x[i] = rnd_pos < rnd_n ? rnd[rnd_pos++] : 0;
	if (mark)
		VALGRIND_MAKE_MEM_UNDEFINED(x, n);
	return 0;
}
static uint32_t u(FILE *f)
{
	uint32_t v = 0;
	if (fread(&v, 4, 1, f) != 1)
		exit(3);
	return v;
}
static uint8_t *buf(FILE *f, uint32_t *n)
{
	*n = u(f);
	uint8_t *p = aligned_alloc(64, (*n + 127) / 64 * 64);
	if (*n && fread(p, 1, *n, f) != *n)
		exit(3);
	return p;
}
int main(int argc, char **argv)
{
	void *h = dlopen(argv[1], RTLD_NOW);
	FILE *f = fopen(argv[2], "rb");
	if (!h || !f) {
		fprintf(stderr, "%s\n", dlerror());
		return 3;
	}
	void (*setrng)(void *, void *) = dlsym(h, "vf_set_rng");
	int (*kp)(uint8_t *, uint8_t *) = dlsym(h, "crypto_kem_keypair");
	int (*enc)(uint8_t *, uint8_t *, uint8_t *) = dlsym(h, "crypto_kem_enc");
	int (*dec)(uint8_t *, uint8_t *, uint8_t *) = dlsym(h, "crypto_kem_dec");
	if (!setrng || !kp || !enc || !dec)
		return 3;
	uint32_t op = u(f), pkn, ctn, skn, ssn = u(f), k;
	rnd = buf(f, &rnd_n);
	uint8_t *pk = buf(f, &pkn), *ct = buf(f, &ctn), *sk = buf(f, &skn), *ss = aligned_alloc(64, (ssn + 127) / 64 * 64);
	uint32_t parts = u(f), off[16], len[16];
	for (k = 0; k < parts; k++) {
		off[k] = u(f);
		len[k] = u(f);
	}
	setrng((void *)feed, 0);
	unsigned e0 = VALGRIND_COUNT_ERRORS;
	if (op == 2)
		for (k = 0; k < parts; k++)
			VALGRIND_MAKE_MEM_UNDEFINED(sk + off[k], len[k]);
	if (op == 0)
		kp(pk, sk);
	else if (op == 1)
		enc(ct, ss, pk);
	else
		dec(ss, ct, sk);
	unsigned e1 = VALGRIND_COUNT_ERRORS;
	/* the marking reached the results: otherwise nothing was monitored */
	unsigned secret_bytes = 0;
	uint8_t *out = op == 0 ? sk : ss;
	uint32_t on = op == 0 ? skn : ssn;
	for (k = 0; k < on; k++) {
		uint8_t v = 0;
		VALGRIND_GET_VBITS(out + k, &v, 1);
		secret_bytes += v != 0;
	}
	FILE *o = fopen(argv[3], "w");
	fprintf(o, "%u %u %u\n", e1 - e0, secret_bytes, RUNNING_ON_VALGRIND);
	fclose(o);
	return 0;
}
