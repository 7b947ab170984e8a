/* FAMILIES: m4-tc4kara m4-striding */
#include "verify.h"
void vf_cmov(unsigned char *r, const unsigned char *x, unsigned long n, unsigned char b) { cmov(r, x, n, b); }
