/* pqm4's services as supervisor calls, answered by the test bench. */
#include "fips202.h"
#include "randombytes.h"
#include "api.h"
#define CALL(decl, n) __attribute__((naked)) decl { __asm volatile("svc #" #n "\n\tbx lr"); }
#pragma GCC diagnostic ignored "-Wunused-parameter"
#pragma GCC diagnostic ignored "-Wreturn-type"
CALL(int randombytes(uint8_t *o, size_t n), 1)
CALL(void sha3_256(uint8_t *o, const uint8_t *i, size_t n), 2)
CALL(void sha3_512(uint8_t *o, const uint8_t *i, size_t n), 3)
CALL(void shake128(uint8_t *o, size_t on, const uint8_t *i, size_t n), 4)
CALL(void shake256(uint8_t *o, size_t on, const uint8_t *i, size_t n), 5)
CALL(void shake128_inc_init(shake128incctx *s), 6)
CALL(void shake128_inc_absorb(shake128incctx *s, const uint8_t *i, size_t n), 7)
CALL(void shake128_inc_finalize(shake128incctx *s), 8)
CALL(void shake128_inc_squeeze(uint8_t *o, size_t n, shake128incctx *s), 9)
void shake128_inc_ctx_release(shake128incctx *s) { (void)s; }
CALL(void shake256_inc_init(shake256incctx *s), 6)
CALL(void shake256_inc_absorb(shake256incctx *s, const uint8_t *i, size_t n), 10)
CALL(void shake256_inc_finalize(shake256incctx *s), 11)
CALL(void shake256_inc_squeeze(uint8_t *o, size_t n, shake256incctx *s), 12)
void shake256_inc_ctx_release(shake256incctx *s) { (void)s; }
const uint32_t vf_sizes[4] __attribute__((used)) = {CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES};
