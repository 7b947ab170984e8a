/* FAMILIES: m0 */
#include <stddef.h>
#include "fips202.h"
void vf_shake256(unsigned char *o, unsigned long on, const unsigned char *i, unsigned long n) { shake256(o, on, i, n); }
