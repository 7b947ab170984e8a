/* FAMILIES: m0 */
#include "SABER_params.h"
#include "poly.h"
#include "cbd.h"
void vf_gensecret(uint16_t *out, const unsigned char *seed) { GenSecret((uint16_t(*)[SABER_N])out, seed); }
void vf_cbd(uint16_t *out, const unsigned char *buf) { cbd(0, out, SABER_N, buf); }
