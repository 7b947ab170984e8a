// Independent model of the Saber specification: schoolbook ring arithmetic, generic bit packing,
// OpenSSL for the hash functions and AES. Slow paths are deliberately simple.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

struct Params {
	int L = 3, EQ = 13, EP = 10, ET = 4, MU = 8;
	bool uni = false, n90 = false;
	size_t polyq() const { return EQ * 32; }
	size_t polyp() const { return 320; }
	size_t pk() const { return L * 320 + 32; }
	size_t skcpa() const { return L * polyq(); }
	size_t sk() const { return skcpa() + pk() + 64; }
	size_t ct() const { return L * 320 + ET * 32; }
	size_t coin() const { return uni ? 64 : MU * 32; }
	int half() const { return uni ? 2 : MU / 2; } // largest magnitude of a secret coefficient
	std::string name() const;
};
Params make_params(int L, bool uni, bool n90);

namespace model {
// hash functions
void sha3_256(u8 *out, const u8 *in, size_t n);
void sha3_512(u8 *out, const u8 *in, size_t n);
void shake(int bits, u8 *out, size_t on, const u8 *in, size_t n);
void sha256(u8 *out, const u8 *in, size_t n);
void sha512(u8 *out, const u8 *in, size_t n);
void aes_ctr(u8 *out, size_t n, const u8 key[32], const u8 iv[16]);
void aes_ecb(u8 out[16], const u8 key[32], const u8 in[16]);
// scheme-level
void H(const Params &P, u8 *out, const u8 *in, size_t n);
void G(const Params &P, u8 *out, const u8 *in, size_t n);
void PRF(const Params &P, u8 *out, size_t on, const u8 *in, size_t n);
// packing: coefficient i at bit offset i*w
void pack(u8 *out, const u16 *c, size_t n, int w);
void unpack(u16 *c, const u8 *in, size_t n, int w);
// res += a*b in Z[x]/(x^256+1), modulo 2^16 (reduce further as needed)
void mul_acc(u16 res[256], const u16 a[256], const u16 b[256]);
void gen_matrix(const Params &P, u16 *A, const u8 seed[32]);
void sample(const Params &P, u16 *s, const u8 *buf); // one polynomial from its stream bytes
void gen_secret(const Params &P, u16 *s, const u8 seed[32]);
// KEM
void keypair(const Params &P, u8 *pk, u8 *sk, const u8 *rnd96);
void cpa_enc(const Params &P, u8 *ct, const u8 *m, const u8 *seed_sp, const u8 *pk);
void cpa_dec(const Params &P, u8 *m, const u8 *ct, const u8 *sk);
void enc(const Params &P, u8 *ct, u8 *ss, const u8 *pk, const u8 *rnd32);
// accepted: whether the ciphertext is the re-encryption
void dec(const Params &P, u8 *ss, const u8 *ct, const u8 *sk, bool *accepted = nullptr);

struct Drbg { // NIST SP 800-90A CTR_DRBG, AES-256, no derivation function
	u8 K[32], V[16];
	void update(const u8 *data);
	void init(const u8 seed[48], const u8 *pers);
	void gen(u8 *out, size_t n);
};
}
