/* FAMILIES: m4-tc4kara m4-striding */
#include "SABER_params.h"
#include "pack_unpack.h"
typedef const uint16_t (*cvec)[SABER_N];
typedef uint16_t (*vec)[SABER_N];
void vf_pack_t(unsigned char *o, const uint16_t *d) { POLT2BS(o, d); }
void vf_unpack_t(const unsigned char *o, uint16_t *d) { BS2POLT(o, d); }
void vf_pack_q(unsigned char *o, const uint16_t *d) { POLVECq2BS(o, (cvec)d); }
void vf_unpack_q(const unsigned char *o, uint16_t *d) { BS2POLVECq(o, (vec)d); }
void vf_pack_p(unsigned char *o, const uint16_t *d) { POLVECp2BS(o, (cvec)d); }
void vf_unpack_p(const unsigned char *o, uint16_t *d) { BS2POLVECp(o, (vec)d); }
void vf_pack_m(unsigned char *o, const uint16_t *d) { POLmsg2BS(o, d); }
void vf_unpack_m(const unsigned char *o, uint16_t *d) { BS2POLmsg(o, d); }
