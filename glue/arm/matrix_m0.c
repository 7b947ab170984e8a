/* FAMILIES: m0 REPLACES: SABER_indcpa.c */
#include "SABER_indcpa.c"
void vf_genmatrix(uint16_t *out, const unsigned char *seed)
{
	void (*one)(uint16_t *, const unsigned char *, uint16_t) = GenMatrix_poly;
	for (int i = 0; i < SABER_K * SABER_K; i++)
		one(out + SABER_N * i, seed, i);
}
void vf_genmatrix_all(uint16_t *out, const unsigned char *seed)
{
	void (*all)(polyvec *, const unsigned char *) = GenMatrix;
	all((polyvec *)out, seed);
}
void vf_pack_m(unsigned char *o, uint16_t *d)
{
	void (*f)(uint16_t *, unsigned char *) = POL2MSG;
	f(d, o);
}
