/* FAMILIES: m0 */
#include <stddef.h>
#include "verify.h"
int vf_verify(const unsigned char *a, const unsigned char *b, unsigned long n) { return verify(a, b, n); }
void vf_cmov(unsigned char *r, const unsigned char *x, unsigned long n, unsigned char b) { cmov(r, x, n, b); }
