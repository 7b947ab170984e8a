#include "kem.h"
#include <algorithm>

size_t lane_sk(const Target &T) { return T.compressed ? (size_t)T.P.L * 128 + T.P.pk() + 64 : T.P.sk(); }
Bytes sk_to_target(const Target &T, const Bytes &sk)
{
	if (!T.compressed)
		return sk;
	const Params &P = T.P;
	std::vector<u16> s(P.L * 256);
	model::unpack(s.data(), sk.data(), s.size(), P.EQ);
	Bytes o(P.L * 128);
	model::pack(o.data(), s.data(), s.size(), 4);
	o.insert(o.end(), sk.begin() + P.skcpa(), sk.end());
	return o;
}
Bytes sk_to_model(const Target &T, const u8 *sk)
{
	const Params &P = T.P;
	if (!T.compressed)
		return Bytes(sk, sk + P.sk());
	std::vector<u16> s(P.L * 256);
	model::unpack(s.data(), sk, s.size(), 4);
	for (auto &x : s)
		x = (u16)((x ^ 8) - 8);
	Bytes o(P.skcpa());
	model::pack(o.data(), s.data(), s.size(), P.EQ);
	o.insert(o.end(), sk + P.L * 128, sk + lane_sk(T));
	return o;
}
// now and then one part repeats another, as it is or with one byte changed (often at an edge)
void relate_parts(Rng &r, Bytes &b, size_t parts)
{
	if (parts < 2 || !r.chance(1, 8))
		return;
	size_t n = b.size() / parts;
	for (int k = r.chance(1, 2) ? 1 : r.range(1, (int)parts); k > 0; k--) {
		size_t from = r.below(parts), to = r.below(parts);
		if (from == to)
			continue;
		std::copy(b.begin() + from * n, b.begin() + (from + 1) * n, b.begin() + to * n);
		if (r.chance(1, 2)) {
			size_t w = r.chance(1, 4) ? 0 : r.chance(1, 3) ? n - 1 : r.below(n);
			b[to * n + w] ^= r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255);
		}
	}
}
Bytes gen_rnd(Rng &r, size_t draws)
{
	Bytes o;
	for (size_t i = 0; i < draws; i++)
		append(o, r.chance(3, 4) ? uniform_bytes(r, 32) : gen_bytes(r, 32));
	relate_parts(r, o, draws);
	return o;
}
Bytes honest_sk(Rng &r, const Params &P)
{
	Bytes rnd = gen_rnd(r, 3), pk(P.pk()), sk(P.sk());
	model::keypair(P, pk.data(), sk.data(), rnd.data());
	return sk;
}
static void mutate(Rng &r, Bytes &b, size_t lo, size_t n)
{
	switch (r.below(6)) {
	case 0: // one bit
		b[lo + r.below(n)] ^= 1 << r.below(8);
		break;
	case 1: { // the same difference in two places
		u8 d = r.byte() | 1;
		size_t i = r.below(n), j = r.below(n);
		b[lo + i] ^= d;
		if (i != j)
			b[lo + j] ^= d;
		break;
	}
	case 2: { // compensating sums
		u8 d = 1 + r.below(255);
		size_t i = r.below(n), j = r.below(n);
		b[lo + i] += d;
		if (i != j)
			b[lo + j] -= d;
		break;
	}
	case 3: { // a run replaced
		size_t i = r.below(n), k = 1 + r.below(std::min<size_t>(n - i, 64));
		Bytes x = gen_bytes(r, k);
		std::copy(x.begin(), x.end(), b.begin() + lo + i);
		break;
	}
	case 4: // several bits
		for (int k = r.range(2, 9); k > 0; k--)
			b[lo + r.below(n)] ^= 1 << r.below(8);
		break;
	case 5: { // swap two bytes
		size_t i = r.below(n), j = r.below(n);
		std::swap(b[lo + i], b[lo + j]);
		break;
	}
	}
}
Bytes gen_pk(Rng &r, const Params &P, std::string *cls)
{
	static const char *names[] = {"pk-honest", "pk-random", "pk-structured", "pk-extremes", "pk-mutated", "pk-cross"};
	int k = r.below(6);
	if (cls)
		*cls = names[k];
	Bytes pk;
	switch (k) {
	case 0:
	case 4: {
		Bytes sk = honest_sk(r, P);
		pk = slice(sk, P.skcpa(), P.pk());
		if (k == 4)
			mutate(r, pk, 0, pk.size());
		return pk;
	}
	case 1:
		return uniform_bytes(r, P.pk());
	case 2:
		return gen_bytes(r, P.pk());
	case 3:
		pk = gen_packed(r, P.L * 256, 10);
		append(pk, r.chance(1, 2) ? uniform_bytes(r, 32) : gen_bytes(r, 32));
		return pk;
	default: { // polynomials of different kinds
		for (int i = 0; i < P.L; i++)
			append(pk, r.chance(1, 2) ? gen_packed(r, 256, 10) : uniform_bytes(r, 320));
		append(pk, gen_bytes(r, 32));
		return pk;
	}
	}
}
Bytes gen_sk(Rng &r, const Params &P, std::string *cls, bool honest_only)
{
	int k = honest_only ? 0 : r.below(8);
	static const char *names[] = {"sk-honest", "sk-honest", "sk-honest", "sk-random", "sk-mutated", "sk-extreme-secret", "sk-foreign-fields", "sk-structured"};
	if (cls)
		*cls = names[k];
	if (k < 3)
		return honest_sk(r, P);
	if (k == 3)
		return uniform_bytes(r, P.sk());
	if (k == 7)
		return gen_bytes(r, P.sk());
	Bytes sk = honest_sk(r, P);
	if (k == 4)
		mutate(r, sk, 0, sk.size());
	else if (k == 5) {
		auto c = r.chance(1, 2) ? gen_coeffs(r, P.L * 256, P.EQ) : gen_small(r, P.L * 256, P.half());
		model::pack(sk.data(), c.data(), c.size(), P.EQ);
	} else { // other hash of the public key, other rejection key, other public key
		int w = 1 + r.below(7);
		if (w & 1) {
			Bytes x = gen_bytes(r, 32);
			std::copy(x.begin(), x.end(), sk.end() - 64);
		}
		if (w & 2) {
			Bytes x = gen_bytes(r, 32);
			std::copy(x.begin(), x.end(), sk.end() - 32);
		}
		if (w & 4) {
			Bytes x = gen_pk(r, P);
			std::copy(x.begin(), x.end(), sk.begin() + P.skcpa());
		}
	}
	return sk;
}
// the ciphertext that makes the key holder decrypt m, as an encapsulator with hash field h would
static Bytes encap_to(const Params &P, const Bytes &sk, const Bytes &m)
{
	u8 buf[64], kr[64];
	memcpy(buf, m.data(), 32);
	memcpy(buf + 32, sk.data() + P.sk() - 64, 32);
	model::G(P, kr, buf, 64);
	Bytes ct(P.ct());
	model::cpa_enc(P, ct.data(), m.data(), kr + 32, sk.data() + P.skcpa());
	return ct;
}
Bytes gen_ct(Rng &r, const Params &P, const Bytes &sk, std::string *cls)
{
	static const char *names[] = {"ct-valid",      "ct-valid", "ct-bitflip", "ct-mutated", "ct-mutated", "ct-tail",
				      "ct-random", "ct-structured", "ct-other-coins", "ct-extremes", "ct-mutated-v"};
	int k = r.below(11);
	if (cls)
		*cls = names[k];
	if (k == 6)
		return uniform_bytes(r, P.ct());
	if (k == 7)
		return gen_bytes(r, P.ct());
	if (k == 9) {
		Bytes c = gen_packed(r, P.L * 256, 10);
		append(c, gen_packed(r, 256, P.ET));
		return c;
	}
	Bytes m = r.chance(1, 2) ? uniform_bytes(r, 32) : gen_bytes(r, 32);
	if (k == 8) { // decrypts to m, but from other coins
		Bytes ct(P.ct()), s = uniform_bytes(r, 32);
		model::cpa_enc(P, ct.data(), m.data(), s.data(), sk.data() + P.skcpa());
		return ct;
	}
	Bytes ct = encap_to(P, sk, m);
	if (k == 2)
		ct[r.below(ct.size())] ^= 1 << r.below(8);
	else if (k == 3 || k == 4)
		mutate(r, ct, 0, ct.size());
	else if (k == 5) {
		size_t n = 1 + r.below(ct.size());
		Bytes x = gen_bytes(r, n);
		std::copy(x.begin(), x.end(), ct.end() - n);
	} else if (k == 10)
		mutate(r, ct, P.L * 320, P.ET * 32);
	return ct;
}
void gen_boundary(Rng &r, const Params &P, Bytes &sk, Bytes &ct)
{
	const Bytes base = honest_sk(r, P);
	Bytes m = r.chance(1, 2) ? uniform_bytes(r, 32) : gen_bytes(r, 32);
	std::vector<u16> b(P.L * 256);
	model::unpack(b.data(), base.data() + P.skcpa(), b.size(), 10);
	size_t at = r.below(b.size());
	int sign = r.chance(1, 2) ? 1 : -1;
	auto shifted = [&](int e) {
		Bytes s = base;
		auto v = b;
		v[at] = (v[at] + sign * e) & 1023;
		model::pack(s.data() + P.skcpa(), v.data(), v.size(), 10);
		return s; // the stored hash is left alone, so the coins stay the same for every shift
	};
	auto accepted = [&](int e) {
		u8 k[32];
		bool a = false;
		Bytes s = shifted(e), c = encap_to(P, s, m);
		model::dec(P, k, c.data(), s.data(), &a);
		return a;
	};
	int lo = 0, hi = 512 / P.half(); // accepted, not accepted
	while (hi - lo > 1) {
		int mid = (lo + hi) / 2;
		(accepted(mid) ? lo : hi) = mid;
	}
	int e = r.chance(1, 8) ? std::max(0, lo + (int)r.range(-3, 4)) : r.chance(1, 2) ? lo : hi;
	sk = shifted(e);
	ct = encap_to(P, sk, m);
}
Bytes gen_target_sk(Rng &r, const Target &T, std::string *cls)
{
	Bytes sk = gen_sk(r, T.P, cls);
	if (!T.compressed)
		return sk;
	Bytes t = sk_to_target(T, sk); // coefficients beyond four bits are cut, which is again a key
	if (r.chance(1, 6)) {
		Bytes x = gen_bytes(r, T.P.L * 128);
		std::copy(x.begin(), x.end(), t.begin());
		if (cls)
			*cls = "sk-compressed-arbitrary";
	}
	return t;
}
void expect_keypair(const Target &T, const Bytes &rnd, Bytes &pk, Bytes &sk)
{
	const Params &P = T.P;
	pk.clear();
	sk.clear();
	for (int l = 0; l < T.lanes; l++) {
		Bytes p(P.pk()), s(P.sk());
		model::keypair(P, p.data(), s.data(), rnd.data() + 96 * l);
		append(pk, p);
		append(sk, sk_to_target(T, s));
	}
}
void expect_enc(const Target &T, const Bytes &pk, const Bytes &rnd, Bytes &ct, Bytes &ss)
{
	const Params &P = T.P;
	ct.assign(P.ct() * T.lanes, 0);
	ss.assign(32 * T.lanes, 0);
	for (int l = 0; l < T.lanes; l++)
		model::enc(P, ct.data() + l * P.ct(), ss.data() + 32 * l, pk.data() + l * P.pk(), rnd.data() + 32 * l);
}
void expect_dec(const Target &T, const Bytes &ct, const Bytes &sk, Bytes &ss, int *accepted)
{
	const Params &P = T.P;
	ss.assign(32 * T.lanes, 0);
	int acc = 0;
	for (int l = 0; l < T.lanes; l++) {
		Bytes m = sk_to_model(T, sk.data() + l * lane_sk(T));
		bool a = false;
		model::dec(P, ss.data() + 32 * l, ct.data() + l * P.ct(), m.data(), &a);
		acc += a;
	}
	if (accepted)
		*accepted = acc;
}
bool ok(Out &o, const char *op, const OpResult &r)
{
	if (!r.fault.empty())
		return o.bad(std::string(op) + ": " + r.fault);
	if (r.rc != 0)
		return o.bad(strf("%s returned %d instead of 0", op, r.rc));
	return true;
}
bool draws_are(const Target &T, const OpResult &r, size_t per_lane)
{
	if (T.family == "m0") { // the generator is a word register: only the amount is visible
		u64 sum = 0;
		for (auto x : r.draws)
			sum += x;
		return sum == 32 * per_lane * T.lanes;
	}
	return r.draws == std::vector<u64>(per_lane * T.lanes, 32);
}
