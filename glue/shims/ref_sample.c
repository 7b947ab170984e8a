/* FAMILIES: ref uref */
#include "SABER_params.h"
#include "poly.h"
void vf_genmatrix(uint16_t *out, const unsigned char *seed) { GenMatrix((uint16_t(*)[SABER_L][SABER_N])out, seed); }
void vf_gensecret(uint16_t *out, const unsigned char *seed) { GenSecret((uint16_t(*)[SABER_N])out, seed); }
