/* FAMILIES: m4-tc4kara m4-striding */
#include "SABER_params.h"
#include "pack_unpack.h"
typedef const uint16_t (*cvec)[SABER_N];
uint32_t vf_cmp_t(const unsigned char *o, const uint16_t *d) { return POLT2BS_cmp(o, d); }
uint32_t vf_cmp_p(const unsigned char *o, const uint16_t *d) { return POLVECp2BS_cmp(o, (cvec)d); }
uint32_t vf_cmp_p1(const unsigned char *o, const uint16_t *d) { return POLp2BS_cmp(o, d); }
