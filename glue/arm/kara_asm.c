/* FAMILIES: m4-striding gen */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
void vf_kara64(uint16_t *a, uint16_t *b, uint16_t *res, uint16_t *extra) { kara_strd_mem_asm(a, b, res, extra); }
