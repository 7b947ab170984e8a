/* FAMILIES: m4-tc4kara m4-striding */
#include "SABER_params.h"
#include "pack_unpack.h"
#ifndef SABER_COMPRESS_SECRETKEY
#error plain secret keys
#endif
typedef const uint16_t (*cvec)[SABER_N];
typedef uint16_t (*vec)[SABER_N];
void vf_pack_mu(unsigned char *o, const uint16_t *d) { POLVECmu2BS(o, (cvec)d); }
void vf_unpack_mu(const unsigned char *o, uint16_t *d) { BS2POLVECmu(o, (vec)d); }
