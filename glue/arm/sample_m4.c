/* FAMILIES: m4-tc4kara m4-striding */
#include "SABER_params.h"
#include "poly.h"
#include "cbd.h"
void vf_gensecret(uint16_t *out, uint8_t *seed) { GenSecret((uint16_t(*)[SABER_N])out, seed, 0); }
void vf_cbd(uint16_t *out, const uint8_t *buf) { cbd(out, buf); }
