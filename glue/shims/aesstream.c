/* FAMILIES: vavx */
#include <stddef.h>
#include "crypto_stream.h"
int vf_aes_stream16(unsigned char *o, unsigned long long on, const unsigned char *nonce, const unsigned char *key) { return crypto_stream_aes256ctr(o, on, nonce, key); }
