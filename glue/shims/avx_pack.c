/* FAMILIES: avx vavx x4 */
#include "SABER_params.h"
#include "pack_unpack.h"
typedef uint16_t (*vec)[SABER_N];
#if SABER_ET == 3
void vf_pack_t(unsigned char *o, uint16_t *d) { SABER_pack_3bit(o, d); }
void vf_unpack_t(unsigned char *o, uint16_t *d) { SABER_un_pack3bit(o, d); }
#elif SABER_ET == 4
void vf_pack_t(unsigned char *o, uint16_t *d) { SABER_pack_4bit(o, d); }
void vf_unpack_t(unsigned char *o, uint16_t *d) { SABER_un_pack4bit(o, d); }
#else
void vf_pack_t(unsigned char *o, uint16_t *d) { SABER_pack_6bit(o, d); }
void vf_unpack_t(unsigned char *o, uint16_t *d) { SABER_un_pack6bit(o, d); }
#endif
void vf_pack_q(unsigned char *o, uint16_t *d) { POLVEC2BS(o, (vec)d, SABER_Q); }
void vf_unpack_q(const unsigned char *o, uint16_t *d) { BS2POLVEC(o, (vec)d, SABER_Q); }
void vf_pack_p(unsigned char *o, uint16_t *d) { POLVEC2BS(o, (vec)d, SABER_P); }
void vf_unpack_p(const unsigned char *o, uint16_t *d) { BS2POLVEC(o, (vec)d, SABER_P); }
