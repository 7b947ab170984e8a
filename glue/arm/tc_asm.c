/* FAMILIES: m4-striding gen */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
void vf_tc_acc(uint16_t *a, uint16_t *b, uint16_t *res) { toom_cook_4way_striding_asm(a, b, res); }
