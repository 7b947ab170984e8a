/* FAMILIES: uref vavx */
#include <stddef.h>
#include "symmetric.h"
void vf_aes_prf(unsigned char *o, unsigned long long on, const unsigned char *key) { saber_aes256ctr_prf(o, on, key); }
