/* FAMILIES: ref uref */
#include "SABER_params.h"
#include "poly_mul.h"
void vf_polymul_acc(const uint16_t *a, const uint16_t *b, uint16_t *res) { poly_mul_acc(a, b, res); }
