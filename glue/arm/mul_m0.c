/* FAMILIES: m0 */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
void vf_polymul_acc(uint16_t *a, uint16_t *b, uint16_t *res) { pol_mul(a, b, res); }
