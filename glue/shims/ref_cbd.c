/* FAMILIES: ref uref */
#include <stdint.h>
#include "SABER_params.h"
#include "cbd.h"
void vf_cbd(uint16_t *out, const unsigned char *buf) { cbd(out, buf); }
