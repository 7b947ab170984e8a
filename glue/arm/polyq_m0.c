/* FAMILIES: m0 */
#include "SABER_params.h"
#include "pack_unpack.h"
void vf_unpack_polyq(const unsigned char *o, uint16_t *d) { BS2POLq(o, d); }
