/* FAMILIES: m0 */
#include <stddef.h>
#include "fips202.h"
void vf_sha3_256(unsigned char *o, const unsigned char *i, unsigned long n) { sha3_256(o, i, n); }
void vf_sha3_512(unsigned char *o, const unsigned char *i, unsigned long n) { sha3_512(o, i, n); }
void vf_shake128(unsigned char *o, unsigned long on, const unsigned char *i, unsigned long n) { shake128(o, on, i, n); }
