/* FAMILIES: uref */
#include <stddef.h>
#include "sha2.h"
void vf_sha256(unsigned char *o, const unsigned char *i, unsigned long long n) { sha256(o, i, n); }
void vf_sha512(unsigned char *o, const unsigned char *i, unsigned long long n) { sha512(o, i, n); }
