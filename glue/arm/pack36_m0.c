/* FAMILIES: m0 */
#include "SABER_params.h"
#include "pack_unpack.h"
void vf_pack_w3(unsigned char *o, uint16_t *d) { SABER_pack_3bit(o, d); }
void vf_unpack_w3(unsigned char *o, uint16_t *d) { SABER_un_pack3bit(o, d); }
void vf_pack_w6(unsigned char *o, uint16_t *d) { SABER_pack_6bit(o, d); }
void vf_unpack_w6(const unsigned char *o, uint16_t *d) { SABER_un_pack6bit(o, d); }
