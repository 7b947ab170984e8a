/* FAMILIES: m4-tc4kara */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
void vf_fullmul(uint16_t *r, const uint16_t *a, const uint16_t *b) { polymul_asm(r, a, b); }
