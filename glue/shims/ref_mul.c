/* FAMILIES: ref uref */
#include "SABER_params.h"
#include "poly.h"
typedef const uint16_t (*cmat)[SABER_L][SABER_N];
typedef const uint16_t (*cvec)[SABER_N];
void vf_matvec(const uint16_t *a, const uint16_t *s, uint16_t *res, int t) { MatrixVectorMul((cmat)a, (cvec)s, (uint16_t(*)[SABER_N])res, t); }
void vf_innerprod(const uint16_t *b, const uint16_t *s, uint16_t *res) { InnerProd((cvec)b, (cvec)s, res); }
