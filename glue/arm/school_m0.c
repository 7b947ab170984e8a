/* FAMILIES: m0 */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
void vf_school16(const uint16_t *a, const uint16_t *b, uint16_t *c) { school_book_mul2_16(a, b, c); }
