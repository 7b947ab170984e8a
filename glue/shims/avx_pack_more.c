/* FAMILIES: avx vavx x4 */
#include "SABER_params.h"
#include "pack_unpack.h"
typedef uint16_t (*vec)[SABER_N];
void vf_pack_w3(unsigned char *o, uint16_t *d) { SABER_pack_3bit(o, d); }
void vf_unpack_w3(unsigned char *o, uint16_t *d) { SABER_un_pack3bit(o, d); }
void vf_pack_w4(unsigned char *o, uint16_t *d) { SABER_pack_4bit(o, d); }
void vf_unpack_w4(unsigned char *o, uint16_t *d) { SABER_un_pack4bit(o, d); }
void vf_pack_w6(unsigned char *o, uint16_t *d) { SABER_pack_6bit(o, d); }
void vf_unpack_w6(unsigned char *o, uint16_t *d) { SABER_un_pack6bit(o, d); }
void vf_pack_v10(unsigned char *o, uint16_t *d) { SABER_pack10bit(o, (vec)d); }
void vf_unpack_v10(unsigned char *o, uint16_t *d) { SABER_un_pack10bit(o, (vec)d); }
void vf_pack_v13(unsigned char *o, uint16_t *d) { SABER_pack13bit(o, (vec)d); }
void vf_unpack_v13(unsigned char *o, uint16_t *d) { SABER_un_pack13bit(o, (vec)d); }
void vf_unpack_poly13(unsigned char *o, uint16_t *d) { SABER_poly_un_pack13bit(o, d); }
