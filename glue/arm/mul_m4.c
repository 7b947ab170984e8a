/* FAMILIES: m4-tc4kara m4-striding gen */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
void vf_polymul(uint16_t *a, uint16_t *b, uint16_t *res) { poly_mul(a, b, res); }
void vf_polymul_acc(uint16_t *a, uint16_t *b, uint16_t *res) { poly_mul_acc(a, b, res); }
