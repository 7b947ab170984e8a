/* FAMILIES: x4 */
#include <string.h>
#include "SABER_params.h"
#include "poly.h"
#include "pack_unpack.h"
extern void GenMatrix4x(polyvecNew *a0, polyvecNew *a1, polyvecNew *a2, polyvecNew *a3,
				const unsigned char *seed0, const unsigned char *seed1,
				const unsigned char *seed2, const unsigned char *seed3);
#include "SABER_indcpa.h"
void load_values();
typedef uint16_t (*vec)[SABER_N];
/* buffers of the four lanes one after another */
void vf_x4_genmatrix(uint16_t *out, const unsigned char *seeds)
{
	polyvecNew a[4][SABER_K];
	load_values();
	GenMatrix4x(a[0], a[1], a[2], a[3], seeds, seeds + 32, seeds + 64, seeds + 96);
	memcpy(out, a, sizeof a);
}
#define VEC (SABER_K * SABER_N)
void vf_x4_pack_q(unsigned char *o, uint16_t *d)
{
	int n = SABER_K * 416;
	load_values();
	POLVEC2BSX4(o, o + n, o + 2 * n, o + 3 * n, (vec)d, (vec)(d + VEC), (vec)(d + 2 * VEC), (vec)(d + 3 * VEC), SABER_Q);
}
void vf_x4_pack_p(unsigned char *o, uint16_t *d)
{
	int n = SABER_K * 320;
	load_values();
	POLVEC2BSX4(o, o + n, o + 2 * n, o + 3 * n, (vec)d, (vec)(d + VEC), (vec)(d + 2 * VEC), (vec)(d + 3 * VEC), SABER_P);
}
static void vf_un(const unsigned char *o, uint16_t *d, int n, int mod)
{
	__m256i r[4][SABER_K][SABER_N / 16];
	load_values();
	BS2POLVECX4(o, o + n, o + 2 * n, o + 3 * n, r[0], r[1], r[2], r[3], mod);
	memcpy(d, r, sizeof r);
}
void vf_x4_unpack_q(const unsigned char *o, uint16_t *d) { vf_un(o, d, SABER_K * 416, SABER_Q); }
void vf_x4_unpack_p(const unsigned char *o, uint16_t *d) { vf_un(o, d, SABER_K * 320, SABER_P); }
void vf_x4_pack_t(unsigned char *o, uint16_t *d) { SABER_pack_4bitX4(o, o + 128, o + 256, o + 384, d, d + 256, d + 512, d + 768); }
void vf_x4_unpack_t(const unsigned char *o, uint16_t *d) { SABER_un_pack4bitX4(o, o + 128, o + 256, o + 384, d, d + 256, d + 512, d + 768); }
