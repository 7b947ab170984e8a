#include "model.h"
#include <openssl/evp.h>
#include <cstdlib>
#include <cstdio>

Params make_params(int L, bool uni, bool n90)
{
	Params P;
	P.L = L;
	P.uni = uni;
	P.n90 = n90;
	P.EQ = uni ? 12 : 13;
	P.ET = L == 2 ? 3 : L == 3 ? 4 : 6;
	P.MU = L == 2 ? 10 : L == 3 ? 8 : 6;
	return P;
}
std::string Params::name() const
{
	std::string s = L == 2 ? "LightSaber" : L == 3 ? "Saber" : "FireSaber";
	return (uni ? "u" : "") + s + (n90 ? "-90s" : "");
}
namespace model {
static void die(const char *m)
{
	fprintf(stderr, "model: %s\n", m);
	abort();
}
static void digest(const char *name, u8 *out, size_t xof, const u8 *in, size_t n)
{
	struct E {
		std::string name;
		EVP_MD *md;
	};
	static thread_local std::vector<E> mds;
	static thread_local EVP_MD_CTX *ctx = nullptr;
	if (!ctx)
		ctx = EVP_MD_CTX_new();
	EVP_MD *md = nullptr;
	for (auto &e : mds)
		if (e.name == name)
			md = e.md;
	if (!md) {
		md = EVP_MD_fetch(nullptr, name, nullptr);
		if (!md)
			die(name);
		mds.push_back({name, md});
	}
	if (!EVP_DigestInit_ex2(ctx, md, nullptr) || !EVP_DigestUpdate(ctx, in, n))
		die("digest");
	if (xof == (size_t)-1) {
		unsigned l;
		if (!EVP_DigestFinal_ex(ctx, out, &l))
			die("final");
	} else if (xof && !EVP_DigestFinalXOF(ctx, out, xof))
		die("xof");
}
void sha3_256(u8 *o, const u8 *i, size_t n) { digest("SHA3-256", o, -1, i, n); }
void sha3_512(u8 *o, const u8 *i, size_t n) { digest("SHA3-512", o, -1, i, n); }
void sha256(u8 *o, const u8 *i, size_t n) { digest("SHA256", o, -1, i, n); }
void sha512(u8 *o, const u8 *i, size_t n) { digest("SHA512", o, -1, i, n); }
void shake(int bits, u8 *o, size_t on, const u8 *i, size_t n) { digest(bits == 128 ? "SHAKE128" : "SHAKE256", o, on, i, n); }
static EVP_CIPHER_CTX *cctx()
{
	static thread_local EVP_CIPHER_CTX *c = nullptr;
	if (!c)
		c = EVP_CIPHER_CTX_new();
	return c;
}
void aes_ecb(u8 out[16], const u8 key[32], const u8 in[16])
{
	int l;
	static EVP_CIPHER *ci = EVP_CIPHER_fetch(nullptr, "AES-256-ECB", nullptr);
	if (!EVP_EncryptInit_ex2(cctx(), ci, key, nullptr, nullptr) || !EVP_EncryptUpdate(cctx(), out, &l, in, 16))
		die("ecb");
}
void aes_ctr(u8 *out, size_t n, const u8 key[32], const u8 iv[16])
{
	if (!n)
		return;
	int l;
	static EVP_CIPHER *ci = EVP_CIPHER_fetch(nullptr, "AES-256-CTR", nullptr);
	memset(out, 0, n);
	if (!EVP_EncryptInit_ex2(cctx(), ci, key, iv, nullptr) || !EVP_EncryptUpdate(cctx(), out, &l, out, n))
		die("ctr");
}
void H(const Params &P, u8 *o, const u8 *i, size_t n) { P.n90 ? sha256(o, i, n) : sha3_256(o, i, n); }
void G(const Params &P, u8 *o, const u8 *i, size_t n) { P.n90 ? sha512(o, i, n) : sha3_512(o, i, n); }
void PRF(const Params &P, u8 *o, size_t on, const u8 *i, size_t n)
{
	if (P.n90) {
		u8 iv[16] = {0};
		aes_ctr(o, on, i, iv);
	} else
		shake(128, o, on, i, n);
}
void pack(u8 *out, const u16 *c, size_t n, int w)
{
	u64 acc = 0;
	int bits = 0;
	for (size_t i = 0; i < n; i++) {
		acc |= (u64)(c[i] & ((1u << w) - 1)) << bits;
		bits += w;
		while (bits >= 8) {
			*out++ = acc;
			acc >>= 8;
			bits -= 8;
		}
	}
	if (bits)
		*out = acc;
}
void unpack(u16 *c, const u8 *in, size_t n, int w)
{
	u64 acc = 0;
	int bits = 0;
	for (size_t i = 0; i < n; i++) {
		while (bits < w) {
			acc |= (u64)*in++ << bits;
			bits += 8;
		}
		c[i] = acc & ((1u << w) - 1);
		acc >>= w;
		bits -= w;
	}
}
void mul_acc(u16 res[256], const u16 a[256], const u16 b[256])
{
	alignas(64) u16 t[512];
	memset(t, 0, sizeof t);
	for (int i = 0; i < 256; i++) {
		u16 x = a[i];
		u16 *p = t + i;
		for (int j = 0; j < 256; j++)
			p[j] += (u16)(x * b[j]);
	}
	for (int i = 0; i < 256; i++)
		res[i] += (u16)(t[i] - t[i + 256]);
}
void gen_matrix(const Params &P, u16 *A, const u8 seed[32])
{
	Bytes buf(P.L * P.L * P.polyq());
	PRF(P, buf.data(), buf.size(), seed, 32);
	unpack(A, buf.data(), P.L * P.L * 256, P.EQ);
}
void sample(const Params &P, u16 *s, const u8 *buf)
{
	for (int i = 0; i < 256; i++) {
		if (P.uni) {
			int v = (buf[i / 4] >> (2 * (i % 4))) & 3;
			s[i] = (u16)(((v ^ 2) - 2)); // two-bit two's complement
		} else {
			int h = P.MU / 2, x = 0, y = 0;
			for (int k = 0; k < h; k++) {
				size_t p = (size_t)i * P.MU + k, q = p + h;
				x += (buf[p / 8] >> (p % 8)) & 1;
				y += (buf[q / 8] >> (q % 8)) & 1;
			}
			s[i] = (u16)(x - y);
		}
	}
}
void gen_secret(const Params &P, u16 *s, const u8 seed[32])
{
	Bytes buf(P.L * P.coin());
	PRF(P, buf.data(), buf.size(), seed, 32);
	for (int i = 0; i < P.L; i++)
		sample(P, s + 256 * i, buf.data() + i * P.coin());
}
static const int MAXL = 4;
void keypair(const Params &P, u8 *pk, u8 *sk, const u8 *rnd)
{
	u8 seedA[32];
	PRF(P, seedA, 32, rnd, 32);
	u16 A[MAXL * MAXL * 256], s[MAXL * 256], b[MAXL * 256];
	gen_matrix(P, A, seedA);
	gen_secret(P, s, rnd + 32);
	memset(b, 0, sizeof b);
	int sh = P.EQ - P.EP;
	for (int i = 0; i < P.L; i++) {
		for (int j = 0; j < P.L; j++)
			mul_acc(b + 256 * i, A + 256 * (j * P.L + i), s + 256 * j);
		for (int k = 0; k < 256; k++)
			b[256 * i + k] = ((b[256 * i + k] + (1 << (sh - 1))) & ((1 << P.EQ) - 1)) >> sh;
	}
	pack(pk, b, P.L * 256, P.EP);
	memcpy(pk + P.L * 320, seedA, 32);
	pack(sk, s, P.L * 256, P.EQ);
	memcpy(sk + P.skcpa(), pk, P.pk());
	H(P, sk + P.skcpa() + P.pk(), pk, P.pk());
	memcpy(sk + P.sk() - 32, rnd + 64, 32);
}
void cpa_enc(const Params &P, u8 *ct, const u8 *m, const u8 *seed_sp, const u8 *pk)
{
	u16 A[MAXL * MAXL * 256], s[MAXL * 256], bp[MAXL * 256], b[MAXL * 256], v[256];
	gen_matrix(P, A, pk + P.L * 320);
	gen_secret(P, s, seed_sp);
	memset(bp, 0, sizeof bp);
	memset(v, 0, sizeof v);
	int sh = P.EQ - P.EP, h1 = 1 << (sh - 1);
	for (int i = 0; i < P.L; i++) {
		for (int j = 0; j < P.L; j++)
			mul_acc(bp + 256 * i, A + 256 * (i * P.L + j), s + 256 * j);
		for (int k = 0; k < 256; k++)
			bp[256 * i + k] = ((bp[256 * i + k] + h1) & ((1 << P.EQ) - 1)) >> sh;
	}
	pack(ct, bp, P.L * 256, P.EP);
	unpack(b, pk, P.L * 256, P.EP);
	for (int j = 0; j < P.L; j++)
		mul_acc(v, b + 256 * j, s + 256 * j);
	for (int k = 0; k < 256; k++) {
		int mb = (m[k / 8] >> (k % 8)) & 1;
		v[k] = ((v[k] - (mb << (P.EP - 1)) + h1) & ((1 << P.EP) - 1)) >> (P.EP - P.ET);
	}
	pack(ct + P.L * 320, v, 256, P.ET);
}
void cpa_dec(const Params &P, u8 *m, const u8 *ct, const u8 *sk)
{
	u16 s[MAXL * 256], b[MAXL * 256], v[256], cm[256];
	unpack(s, sk, P.L * 256, P.EQ);
	unpack(b, ct, P.L * 256, P.EP);
	unpack(cm, ct + P.L * 320, 256, P.ET);
	memset(v, 0, sizeof v);
	for (int j = 0; j < P.L; j++)
		mul_acc(v, b + 256 * j, s + 256 * j);
	int h2 = (1 << (P.EP - 2)) - (1 << (P.EP - P.ET - 1)) + (1 << (P.EQ - P.EP - 1));
	memset(m, 0, 32);
	for (int k = 0; k < 256; k++) {
		int x = ((v[k] + h2 - (cm[k] << (P.EP - P.ET))) & ((1 << P.EP) - 1)) >> (P.EP - 1);
		m[k / 8] |= x << (k % 8);
	}
}
void enc(const Params &P, u8 *ct, u8 *ss, const u8 *pk, const u8 *rnd)
{
	u8 buf[64], kr[64];
	H(P, buf, rnd, 32);
	H(P, buf + 32, pk, P.pk());
	G(P, kr, buf, 64);
	cpa_enc(P, ct, buf, kr + 32, pk);
	H(P, kr + 32, ct, P.ct());
	H(P, ss, kr, 64);
}
void dec(const Params &P, u8 *ss, const u8 *ct, const u8 *sk, bool *accepted)
{
	u8 buf[64], kr[64];
	const u8 *pk = sk + P.skcpa();
	Bytes cmp(P.ct());
	cpa_dec(P, buf, ct, sk);
	memcpy(buf + 32, sk + P.sk() - 64, 32);
	G(P, kr, buf, 64);
	cpa_enc(P, cmp.data(), buf, kr + 32, pk);
	bool ok = !memcmp(cmp.data(), ct, P.ct());
	H(P, kr + 32, ct, P.ct());
	if (!ok)
		memcpy(kr, sk + P.sk() - 32, 32);
	H(P, ss, kr, 64);
	if (accepted)
		*accepted = ok;
}
void Drbg::update(const u8 *data)
{
	u8 t[48];
	for (int i = 0; i < 3; i++) {
		for (int j = 15; j >= 0; j--)
			if (++V[j])
				break;
		aes_ecb(t + 16 * i, K, V);
	}
	if (data)
		for (int i = 0; i < 48; i++)
			t[i] ^= data[i];
	memcpy(K, t, 32);
	memcpy(V, t + 32, 16);
}
void Drbg::init(const u8 seed[48], const u8 *pers)
{
	u8 s[48];
	memcpy(s, seed, 48);
	if (pers)
		for (int i = 0; i < 48; i++)
			s[i] ^= pers[i];
	memset(K, 0, 32);
	memset(V, 0, 16);
	update(s);
}
void Drbg::gen(u8 *out, size_t n)
{
	u8 b[16];
	while (n) {
		for (int j = 15; j >= 0; j--)
			if (++V[j])
				break;
		aes_ecb(b, K, V);
		size_t k = n < 16 ? n : 16;
		memcpy(out, b, k);
		out += k;
		n -= k;
	}
	update(nullptr);
}
}
