/* FAMILIES: m0 */
#include "SABER_params.h"
#include "pack_unpack.h"
typedef uint16_t (*vec)[SABER_N];
void vf_pack_t(unsigned char *o, uint16_t *d) { SABER_pack_4bit(o, d); }
void vf_unpack_t(const unsigned char *o, uint16_t *d) { SABER_un_pack4bit(o, d); }
void vf_pack_q(unsigned char *o, uint16_t *d) { POLVECq2BS(o, (vec)d); }
void vf_unpack_q(const unsigned char *o, uint16_t *d) { BS2POLVECq(o, (vec)d); }
void vf_pack_p(unsigned char *o, uint16_t *d) { for (int i = 0; i < SABER_K; i++) POLp2BS(o, d + SABER_N * i, i); }
void vf_unpack_p(const unsigned char *o, uint16_t *d) { for (int i = 0; i < SABER_K; i++) BS2POLp(i, o, d + SABER_N * i); }
void vf_pack_v10(unsigned char *o, uint16_t *d) { POLVECp2BS(o, (vec)d); }
void vf_unpack_v10(const unsigned char *o, uint16_t *d) { BS2POLVECp(o, (vec)d); }
