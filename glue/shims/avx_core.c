/* FAMILIES: avx vavx x4
   REPLACES: SABER_indcpa.c   (compiled with the project's file inside, so types are checked) */
#include "SABER_indcpa.c"
#pragma GCC diagnostic error "-Wimplicit-function-declaration"
#pragma GCC diagnostic error "-Wincompatible-pointer-types"
#pragma GCC diagnostic error "-Wint-conversion"
static void vf_load(__m256i *d, const uint16_t *s, int n)
{
	memcpy(d, s, n * 2);
}
void vf_genmatrix(uint16_t *out, const unsigned char *seed)
{
	polyvec a[SABER_K];
	int i, j, k;
	GenMatrix(a, seed);
	for (i = 0; i < SABER_K; i++)
		for (j = 0; j < SABER_K; j++)
			for (k = 0; k < SABER_N; k++)
				*out++ = a[i].vec[j].coeffs[k];
}
void vf_gensecret(uint16_t *out, const unsigned char *seed) { GenSecret((uint16_t(*)[SABER_N])out, seed); }
void vf_cbd(uint16_t *out, const unsigned char *buf) { cbd(out, buf); }
void vf_matvec(const uint16_t *a, const uint16_t *s, uint16_t *res, int t)
{
	__m256i av[SABER_K][SABER_K][SABER_N / 16], sv[SABER_K][SABER_N / 16], rv[SABER_K][SABER_N / 16];
	__m256i bucket[NUM_POLY][SCHB_N * 4];
	int j;
	load_values();
	vf_load(&av[0][0][0], a, SABER_K * SABER_K * SABER_N);
	vf_load(&sv[0][0], s, SABER_K * SABER_N);
	memset(rv, 0, sizeof rv);
	for (j = 0; j < SABER_K; j++)
		TC_eval(sv[j], bucket[j]);
	matrix_vector_mul(av, bucket, rv, t);
	memcpy(res, rv, sizeof rv);
}
void vf_innerprod(const uint16_t *a, const uint16_t *s, uint16_t *res)
{
	__m256i av[SABER_K][SABER_N / 16], sv[SABER_K][SABER_N / 16], rv[SABER_N / 16];
	__m256i bucket[NUM_POLY][SCHB_N * 4];
	int j;
	load_values();
	vf_load(&av[0][0], a, SABER_K * SABER_N);
	vf_load(&sv[0][0], s, SABER_K * SABER_N);
	memset(rv, 0, sizeof rv);
	for (j = 0; j < SABER_K; j++)
		TC_eval(sv[j], bucket[j]);
	vector_vector_mul(av, bucket, rv);
	memcpy(res, rv, sizeof rv);
}
/* one product: toom_cook_4way_avx_n1 with its accumulate flag clear, then interpolation */
void vf_polymul(const uint16_t *a, const uint16_t *s, uint16_t *res)
{
	__m256i av[SABER_N / 16], sv[SABER_N / 16], rv[SABER_N / 16], bucket[SCHB_N * 4], c[2 * SCM_SIZE * 4];
	load_values();
	vf_load(av, a, SABER_N);
	vf_load(sv, s, SABER_N);
	TC_eval(sv, bucket);
	toom_cook_4way_avx_n1(av, bucket, c, 0);
	TC_interpol(c, rv);
	memcpy(res, rv, sizeof rv);
}
void vf_unpack_polyq(const unsigned char *b, uint16_t *d) { BS2POLq(b, d); }
