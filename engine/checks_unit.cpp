// C06..C10, C15: components against the model, native or on the instruction-set model.
#include "guided.h"
#include "emu.h"
#include <algorithm>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

static Bytes slice_(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + n); }
template <class F> static F fn(Target *t, const char *n) { return (F)t->sym(n); }
static std::function<std::vector<std::string>()> having(std::vector<const char *> names)
{
	return [names] {
		return all_targets([&](Target &t) {
			for (auto n : names)
				if (!t.sym(n))
					return false;
			return true;
		});
	};
}
static std::function<std::pair<u64, u64>(Target *)> N(u64 q, u64 th, u64 per)
{
	return [=](Target *t) {
		u64 n = g_thorough ? th : q;
		if (t->emulated()) // slower, and twelve Cortex-M4 builds share one set of sources
			n = n / (t->kind == "units" ? 10 : 40) + 1;
		return std::pair<u64, u64>(n, t->emulated() ? std::max<u64>(1, per / 8) : per);
	};
}
static Bytes b16(const std::vector<u16> &v) { return Bytes((const u8 *)v.data(), (const u8 *)v.data() + v.size() * 2); }
static std::vector<u16> v16(const Bytes &b)
{
	std::vector<u16> v(b.size() / 2);
	memcpy(v.data(), b.data(), v.size() * 2);
	return v;
}
// aligned scratch with canaries: the unit gets exactly n bytes
typedef void (*poison_t)(void const volatile *, size_t);
static poison_t poison = (poison_t)dlsym(RTLD_DEFAULT, "__asan_poison_memory_region");
static poison_t unpoison = (poison_t)dlsym(RTLD_DEFAULT, "__asan_unpoison_memory_region");
struct Buf {
	std::vector<u8> raw;
	u8 *p;
	size_t n;
	Buf(size_t n, u8 fill, size_t off = 0) : raw(n + 256, 0xc7), n(n)
	{
		p = (u8 *)(((uintptr_t)raw.data() + 127) & ~(uintptr_t)63) + off;
		memset(p, fill, n);
		if (poison) { // under AddressSanitizer, reading the slack is an error too
			poison(raw.data(), p - raw.data());
			poison(p + n, raw.data() + raw.size() - p - n);
		}
	}
	Buf(const Buf &) = delete;
	Buf(Buf &&) = default;
	~Buf()
	{
		if (unpoison && !raw.empty())
			unpoison(raw.data(), raw.size());
	}
	Buf(const Bytes &b, size_t off = 0) : Buf(b.size(), 0, off) { memcpy(p, b.data(), b.size()); }
	bool intact() const
	{
		for (const u8 *q = raw.data(); q < raw.data() + raw.size(); q++)
			if ((q < p || q >= p + n) && *q != 0xc7)
				return false;
		return true;
	}
};
// one call of a unit, native or emulated
struct UA {
	Buf *b = nullptr;
	bool w = false;
	u64 v = 0;
};
static UA I(Buf &b) { return UA{&b, false, 0}; }
static UA W(Buf &b) { return UA{&b, true, 0}; }
static UA V(u64 v) { return UA{nullptr, false, v}; }
static bool ucall(Out &o, Target *t, const char *name, std::vector<UA> a, u64 *ret = nullptr)
{
	if (!t->emulated()) {
		u64 v[4] = {0, 0, 0, 0};
		for (size_t k = 0; k < a.size(); k++)
			v[k] = a[k].b ? (u64)(uintptr_t)a[k].b->p : a[k].v;
		u64 r = fn<u64 (*)(u64, u64, u64, u64)>(t, name)(v[0], v[1], v[2], v[3]);
		if (ret)
			*ret = r;
		return true;
	}
	std::vector<EArg> e;
	for (size_t k = 0; k < a.size(); k++) {
		if (!a[k].b) {
			e.push_back(EArg::v(a[k].v));
			continue;
		}
		int alias = -1;
		for (size_t j = 0; j < k; j++)
			if (a[j].b == a[k].b)
				alias = j;
		if (alias >= 0) {
			if (a[k].w)
				e[alias].kind = EArg::INOUT;
			e.push_back(EArg::again(alias));
			continue;
		}
		Bytes d(a[k].b->p, a[k].b->p + a[k].b->n);
		u32 skew = (uintptr_t)a[k].b->p & 15;
		e.push_back(a[k].w ? EArg::inout(d, skew) : EArg::in(d, skew));
	}
	u32 rv = 0;
	OpResult r = emu(t)->call(name, e, &rv);
	if (ret)
		*ret = rv;
	if (!r.fault.empty())
		return o.bad(strf("%s: %s", name, r.fault.c_str()));
	for (size_t k = 0; k < a.size(); k++)
		if (a[k].b && e[k].kind == EArg::INOUT)
			memcpy(a[k].b->p, e[k].data.data(), a[k].b->n);
	return true;
}
static bool same(Out &o, const char *w, const u8 *got, const u8 *want, size_t n)
{
	std::string d = diff(w, got, want, n);
	return d.empty() ? true : o.bad(d);
}
static bool same16(Out &o, const char *w, const u16 *got, const u16 *want, size_t n, int bits)
{
	unsigned m = bits >= 16 ? 0xffff : (1u << bits) - 1;
	for (size_t i = 0; i < n; i++)
		if ((got[i] ^ want[i]) & m)
			return o.bad(strf("%s: coefficient %zu is %u, expected %u (modulo 2^%d)", w, i, got[i] & m, want[i] & m, bits));
	return true;
}
static std::function<std::pair<u64, u64>(Target *)> G(u64 units)
{
	return [units](Target *t) {
		auto p = guided_count(t);
		p.first *= units;
		if (t->emulated() && !g_thorough)
			p.first = units;
		return p;
	};
}
// changed operands stay coefficients: reduced, or small and negative
static std::function<void(Case &, Target *)> coeff_fix(std::vector<const char *> names, int bits)
{
	return [=](Case &k, Target *t) {
		int w = bits ? bits : t->P.EQ;
		for (auto n : names) {
			auto v = v16(k.b[n]);
			for (auto &x : v)
				if (x >> w && (bits == 1 || (u16)-x > 5))
					x &= (1 << w) - 1;
			k.b[n] = b16(v);
		}
	};
}
// ---------------------------------------------------------------- C06
static std::vector<u16> gen_operand(Rng &r, size_t n, const Params &P)
{
	std::vector<u16> v;
	for (size_t i = 0; i < n; i += 256) {
		auto x = r.chance(1, 4) ? gen_coeffs(r, 256, 10) : gen_coeffs(r, 256, P.EQ);
		v.insert(v.end(), x.begin(), x.end());
	}
	return v;
}
static std::vector<u16> gen_secretlike(Rng &r, size_t n, const Params &P)
{
	if (r.chance(1, 4))
		return gen_coeffs(r, n, P.EQ); // as unpacked from a secret key
	auto v = gen_small(r, n, P.half());
	if (r.chance(1, 3))
		for (auto &x : v)
			x &= (1 << P.EQ) - 1;
	return v;
}
static Registrar r06("C06", [](Property &P) {
	P.assumptions = {"internal multiplication entry points are reached through thin wrappers compiled with the project's sources; a wrapper that does not fit the tree is skipped and the KEM-level properties still cover the code"};
	Check c;
	c.name = "polymul";
	c.rule = "one ring product (accumulating where the routine accumulates) of generated operands against the schoolbook product; both operands non-zero";
	c.targets = [] { return all_targets([](Target &t) { return t.sym("vf_polymul_acc") || t.sym("vf_polymul"); }); };
	c.gen = [](Rng &r, Case &k, u64, Target *t) {
		k.b["a"] = b16(gen_operand(r, 256, t->P));
		k.b["b"] = b16(gen_secretlike(r, 256, t->P));
		k.b["acc"] = b16(gen_coeffs(r, 256, t->P.EQ));
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		auto a = v16(k.b.at("a")), b = v16(k.b.at("b")), acc = v16(k.b.at("acc"));
		std::vector<u16> want(256, 0);
		o.nontrivial = std::count(a.begin(), a.end(), 0) < 256 && std::count(b.begin(), b.end(), 0) < 256;
		model::mul_acc(want.data(), a.data(), b.data());
		// some Cortex-M4 routines use the second operand as scratch space
		if (t->sym("vf_polymul")) {
			Buf A(k.b.at("a")), B(k.b.at("b")), R(512, 0xee);
			if (!ucall(o, t, "vf_polymul", {I(A), W(B), W(R)}) || !same16(o, "product", (u16 *)R.p, want.data(), 256, t->P.EQ))
				return;
		}
		if (t->sym("vf_polymul_acc")) {
			Buf A(k.b.at("a")), B(k.b.at("b")), R(k.b.at("acc"));
			for (int i = 0; i < 256; i++)
				want[i] += acc[i];
			if (!ucall(o, t, "vf_polymul_acc", {I(A), W(B), W(R)}) || !same16(o, "accumulated product", (u16 *)R.p, want.data(), 256, t->P.EQ))
				return;
			if (!R.intact())
				o.bad("wrote outside the result");
		}
	};
	c.count = N(8000, 300000, 64);
	P.checks.push_back(c);
	c.guide = {"a", "b", "acc"};
	c.guide_fix = coeff_fix({"a", "b", "acc"}, 0);
	add_guided(P, c, G(1));

	// structured sweep: monomial times monomial-like operands, index chooses the positions
	c.name = "monomials";
	c.rule = "c*x^i times operand with few terms, positions swept by case index, so every coefficient pair of the product network is hit";
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		std::vector<u16> a(256, 0), b(256, 0);
		unsigned m = (1 << t->P.EQ) - 1;
		u64 x = i * 0x9E3779B1u % 65536;
		a[x & 255] = r.chance(1, 2) ? m : 1 + r.below(m);
		b[x >> 8] = r.chance(1, 2) ? (u16)-t->P.half() : (u16)r.range(-t->P.half(), t->P.half());
		if (r.chance(1, 2))
			a[r.below(256)] = 1 + r.below(m);
		if (r.chance(1, 2))
			b[r.below(256)] = (u16)r.range(-t->P.half(), t->P.half());
		k.b["a"] = b16(a);
		k.b["b"] = b16(b);
		k.b["acc"] = Bytes(512, 0);
	};
	c.count = N(8000, 65536 * 2, 64);
	P.checks.push_back(c);

	c.name = "matvec";
	c.rule = "matrix times vector, plain or transposed, against the sum of schoolbook products";
	c.targets = having({"vf_matvec"});
	c.gen = [](Rng &r, Case &k, u64, Target *t) {
		int L = t->P.L;
		std::vector<u16> a;
		for (int i = 0; i < L * L; i++) {
			auto x = gen_coeffs(r, 256, t->P.EQ);
			a.insert(a.end(), x.begin(), x.end());
		}
		k.b["a"] = b16(a);
		k.b["s"] = b16(gen_secretlike(r, 256 * L, t->P));
		k.n["transpose"] = r.below(2);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		int L = t->P.L, tr = k.n.at("transpose");
		auto a = v16(k.b.at("a")), s = v16(k.b.at("s"));
		std::vector<u16> want(256 * L, 0);
		for (int i = 0; i < L; i++)
			for (int j = 0; j < L; j++)
				model::mul_acc(&want[256 * i], &a[256 * (tr ? j * L + i : i * L + j)], &s[256 * j]);
		Buf A(k.b.at("a")), S(k.b.at("s")), R(512 * L, 0);
		if (!ucall(o, t, "vf_matvec", {I(A), I(S), W(R), V(tr)}))
			return;
		o.nontrivial = std::count(s.begin(), s.end(), 0) < 256 * L;
		same16(o, tr ? "transposed matrix product" : "matrix product", (u16 *)R.p, want.data(), 256 * L, t->P.EQ);
	};
	c.count = N(3000, 100000, 32);
	P.checks.push_back(c);
	c.guide = {"a", "s"};
	c.guide_fix = coeff_fix({"a", "s"}, 0);
	add_guided(P, c, G(1));

	c.name = "kernels";
	c.rule = "the Cortex-M building blocks on generated operands: the full 256x256 product, the 64-coefficient negacyclic kernel, the accumulating 16x16 kernel, the all-assembly ring product; the unit is present in this build";
	c.targets = [] {
		return all_targets([](Target &t) { return t.sym("vf_fullmul") || t.sym("vf_kara64") || t.sym("vf_school16") || t.sym("vf_tc_acc"); });
	};
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		auto one = [&](size_t n) {
			if (r.chance(1, 4)) { // few terms
				std::vector<u16> v(n, 0);
				for (int q = r.range(1, 3); q > 0; q--)
					v[r.below(n)] = r.chance(1, 2) ? 0xffff : r.next();
				return v;
			}
			auto v = gen_coeffs(r, 256, r.chance(1, 2) ? 13 : 16);
			v.resize(n);
			return v;
		};
		k.n["unit"] = i % 4;
		k.b["a"] = b16(one(256));
		k.b["b"] = b16(one(256));
		k.b["acc"] = b16(gen_coeffs(r, 512, 16));
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		auto a = v16(k.b.at("a")), b = v16(k.b.at("b")), acc = v16(k.b.at("acc"));
		auto full = [&](size_t n) {
			std::vector<u16> w(2 * n, 0);
			for (size_t i = 0; i < n; i++)
				for (size_t j = 0; j < n; j++)
					w[i + j] += a[i] * b[j];
			return w;
		};
		switch (k.n.at("unit") & 3) {
		case 0: {
			if (!t->sym("vf_fullmul"))
				return;
			for (auto &x : a)
				x &= 0x1fff;
			for (auto &x : b)
				x &= 0x1fff;
			auto w = full(256);
			Buf A(b16(a)), B(b16(b)), R(511 * 2, 0x5a);
			if (ucall(o, t, "vf_fullmul", {W(R), I(A), I(B)}))
				same16(o, "full product", (u16 *)R.p, w.data(), 511, 13);
			o.cls("polymul_asm");
			break;
		}
		case 1: {
			if (!t->sym("vf_kara64"))
				return;
			auto w = full(64);
			for (int i = 0; i < 64; i++)
				w[i] -= w[i + 64];
			Bytes ab = k.b.at("a"), bb = k.b.at("b");
			ab.resize(128);
			bb.resize(128);
			Buf A(ab), B(bb), R(128, 0x5a), X(256, 0x77);
			if (ucall(o, t, "vf_kara64", {W(A), W(B), W(R), W(X)}))
				same16(o, "64-coefficient product", (u16 *)R.p, w.data(), 64, 16);
			o.cls("kara64");
			break;
		}
		case 2: {
			if (!t->sym("vf_school16"))
				return;
			auto w = full(16);
			Bytes ab = k.b.at("a"), bb = k.b.at("b"), cb = k.b.at("acc");
			ab.resize(32);
			bb.resize(32);
			cb.resize(62);
			for (int i = 0; i < 31; i++)
				w[i] += acc[i];
			Buf A(ab), B(bb), R(cb);
			if (ucall(o, t, "vf_school16", {I(A), I(B), W(R)}))
				same16(o, "16-coefficient product", (u16 *)R.p, w.data(), 31, 16);
			o.cls("school16");
			break;
		}
		case 3: {
			if (!t->sym("vf_tc_acc"))
				return;
			std::vector<u16> w(acc.begin(), acc.begin() + 256);
			model::mul_acc(w.data(), a.data(), b.data());
			Bytes cb = k.b.at("acc");
			cb.resize(512);
			Buf A(k.b.at("a")), B(k.b.at("b")), R(cb);
			if (ucall(o, t, "vf_tc_acc", {I(A), W(B), W(R)}))
				same16(o, "all-assembly product", (u16 *)R.p, w.data(), 256, 13);
			o.cls("toom_cook_asm");
			break;
		}
		}
		o.nontrivial = true;
	};
	c.count = N(40000, 1000000, 64);
	P.checks.push_back(c);
	c.guide = {"a", "b", "acc"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(4));

	c.name = "innerprod";
	c.rule = "inner product of a public vector and a secret vector against the sum of schoolbook products, modulo p";
	c.targets = having({"vf_innerprod"});
	c.gen = [](Rng &r, Case &k, u64, Target *t) {
		int L = t->P.L;
		std::vector<u16> a;
		for (int i = 0; i < L; i++) {
			auto x = gen_coeffs(r, 256, 10);
			a.insert(a.end(), x.begin(), x.end());
		}
		k.b["a"] = b16(a);
		k.b["s"] = b16(gen_secretlike(r, 256 * L, t->P));
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		int L = t->P.L;
		auto a = v16(k.b.at("a")), s = v16(k.b.at("s"));
		std::vector<u16> want(256, 0);
		for (int j = 0; j < L; j++)
			model::mul_acc(want.data(), &a[256 * j], &s[256 * j]);
		Buf A(k.b.at("a")), S(k.b.at("s")), R(512, 0);
		if (!ucall(o, t, "vf_innerprod", {I(A), I(S), W(R)}))
			return;
		o.nontrivial = std::count(s.begin(), s.end(), 0) < 256 * L;
		same16(o, "inner product", (u16 *)R.p, want.data(), 256, 10);
	};
	c.count = N(4000, 150000, 32);
	P.checks.push_back(c);
	c.guide = {"a", "s"};
	c.guide_fix = [](Case &k, Target *t) { coeff_fix({"a"}, 10)(k, t); coeff_fix({"s"}, 0)(k, t); };
	add_guided(P, c, G(1));
});
// ---------------------------------------------------------------- C07
struct PackUnit {
	const char *pack, *unpack;
	int width;	// 0: parameter dependent
	char kind;	// t, q, p, m, s (signed small secrets) or literal
	bool vec;
	int lanes;
};
static const PackUnit packs[] = {
	{"vf_pack_t", "vf_unpack_t", 0, 't', false, 1},	    {"vf_pack_q", "vf_unpack_q", 0, 'q', true, 1},
	{"vf_pack_p", "vf_unpack_p", 10, 'p', true, 1},	    {"vf_pack_m", "vf_unpack_m", 1, 'm', false, 1},
	{"vf_pack_w3", "vf_unpack_w3", 3, 'w', false, 1},   {"vf_pack_w4", "vf_unpack_w4", 4, 'w', false, 1},
	{"vf_pack_w6", "vf_unpack_w6", 6, 'w', false, 1},   {"vf_pack_v10", "vf_unpack_v10", 10, 'v', true, 1},
	{"vf_pack_v13", "vf_unpack_v13", 13, 'v', true, 1}, {nullptr, "vf_unpack_poly13", 13, 'v', false, 1},
	{nullptr, "vf_unpack_polyq", 0, 'q', false, 1},	    {"vf_x4_pack_q", "vf_x4_unpack_q", 13, 'q', true, 4},
	{"vf_x4_pack_p", "vf_x4_unpack_p", 10, 'p', true, 4}, {"vf_x4_pack_t", "vf_x4_unpack_t", 4, 't', false, 4},
	{"vf_pack_mu", "vf_unpack_mu", 4, 's', true, 1},
};
static int width(const PackUnit &u, const Params &P) { return u.width ? u.width : u.kind == 't' ? P.ET : P.EQ; }
static u16 unpacked(const PackUnit &u, u16 x, int w)
{
	x &= (1 << w) - 1;
	return u.kind == 's' && x >> (w - 1) ? x - (1 << w) : x;
}
static const int NPACK = sizeof packs / sizeof *packs;
static void pack_targets(std::function<std::vector<std::string>()> &f)
{
	f = [] { return all_targets([](Target &t) { return t.sym("vf_unpack_q") || t.sym("vf_unpack_v13") || t.sym("vf_x4_unpack_q"); }); };
}
static Registrar r07("C07", [](Property &P) {
	P.assumptions = {"packers reduce their input modulo two to the width, as the callers that hand them sixteen-bit sums and negative secrets rely on; the Cortex-M0 message packer is given bits"};
	Check c;
	c.name = "pack";
	c.rule = "packed bytes compared with the bit-by-bit reference at a generated address offset, unpacked again, nothing written outside; unit present in this build";
	pack_targets(c.targets);
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		int ui = i % NPACK;
		const PackUnit &u = packs[ui];
		int w = width(u, t->P);
		size_t n = 256 * (u.vec ? t->P.L : 1) * u.lanes;
		std::vector<u16> c;
		if (r.chance(1, 4)) { // index-driven single coefficient
			c.assign(n, r.chance(1, 2) ? 0 : (1 << w) - 1);
			c[(i / NPACK) % n] = r.next() & ((1 << w) - 1);
		} else
			for (size_t j = 0; j < n; j += 256) {
				auto x = u.kind == 'q' && r.chance(1, 3) ? gen_small(r, 256, 5) : gen_coeffs(r, 256, w);
				c.insert(c.end(), x.begin(), x.end());
			}
		if (r.chance(1, 2) && (u.kind != 'm' || t->id.compare(0, 2, "M0"))) { // not reduced: bits above the width set
			int every = r.chance(1, 2) ? 1 : r.range(2, 200);
			for (auto &x : c)
				if (every == 1 || r.chance(1, every))
					x |= (r.chance(1, 2) ? 0xffff : r.next()) << w;
		}
		k.b["coeffs"] = b16(c);
		k.n["unit"] = ui;
		k.n["align"] = r.chance(1, 2) ? 0 : r.below(64);
		k.n["prefill"] = r.byte();
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		const PackUnit &u = packs[k.n.at("unit") % NPACK];
		bool fp = u.pack && t->sym(u.pack), fu = u.unpack && t->sym(u.unpack);
		if (!fp && !fu)
			return;
		auto c = v16(k.b.at("coeffs"));
		int w = width(u, t->P);
		size_t n = c.size(), lane = n / u.lanes;
		Bytes want(n * w / 8);
		for (int l = 0; l < u.lanes; l++)
			model::pack(want.data() + l * lane * w / 8, c.data() + l * lane, lane, w);
		o.nontrivial = true;
		o.cls(u.pack ? u.pack : u.unpack);
		size_t al = k.n.at("align") & 63;
		if (fp) {
			Buf in(k.b.at("coeffs")), out(want.size(), k.n.at("prefill"), al);
			if (!ucall(o, t, u.pack, {W(out), I(in)}) || !same(o, u.pack, out.p, want.data(), want.size()))
				return;
			if (!out.intact()) {
				o.bad(strf("%s wrote outside its output", u.pack));
				return;
			}
		}
		if (!fu)
			return;
		Buf in(want, al), out(2 * n, k.n.at("prefill"));
		if (!ucall(o, t, u.unpack, {I(in), W(out)}))
			return;
		for (auto &x : c)
			x = unpacked(u, x, w);
		// the Cortex-M4 unpackers leave the reduction to later steps, as their comments say
		if (!same16(o, u.unpack, (u16 *)out.p, c.data(), n, u.kind == 's' ? t->P.EQ : t->kind == "m4" ? w : 16))
			return;
		if (!out.intact())
			o.bad(strf("%s wrote outside its output", u.unpack));
	};
	c.count = N(15 * 2000, 15 * 60000, 128);
	P.checks.push_back(c);
	c.guide = {"coeffs"};
	c.guide_fix = [](Case &k, Target *t) {
		const PackUnit &u = packs[k.n.at("unit") % NPACK];
		if (u.kind == 'm' && !t->id.compare(0, 2, "M0"))
			coeff_fix({"coeffs"}, 1)(k, t);
	};
	add_guided(P, c, G(15));

	c.name = "bytes";
	c.rule = "arbitrary bytes unpacked, compared with the reference, and packed again to the same bytes; unit present in this build";
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		int ui = i % NPACK;
		const PackUnit &u = packs[ui];
		k.n["unit"] = ui;
		k.n["align"] = r.chance(1, 2) ? 0 : r.below(64);
		k.b["bytes"] = gen_bytes(r, 32 * width(u, t->P) * (u.vec ? t->P.L : 1) * u.lanes);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		const PackUnit &u = packs[k.n.at("unit") % NPACK];
		bool fp = u.pack && t->sym(u.pack), fu = u.unpack && t->sym(u.unpack);
		if (!fp && !fu)
			return;
		const Bytes &b = k.b.at("bytes");
		int w = width(u, t->P);
		size_t n = b.size() * 8 / w, lane = n / u.lanes;
		std::vector<u16> want(n);
		for (int l = 0; l < u.lanes; l++)
			model::unpack(&want[l * lane], b.data() + l * lane * w / 8, lane, w);
		for (auto &x : want)
			x = unpacked(u, x, w);
		if (!fu)
			return;
		Buf in(b, k.n.at("align") & 63), out(2 * n, 0x99);
		if (!ucall(o, t, u.unpack, {I(in), W(out)}))
			return;
		o.nontrivial = true;
		o.cls(u.unpack);
		if (!same16(o, u.unpack, (u16 *)out.p, want.data(), n, u.kind == 's' ? t->P.EQ : t->kind == "m4" ? w : 16))
			return;
		if (!same(o, "input of the unpacker", in.p, b.data(), b.size()))
			return;
		if (fp) {
			Buf back(b.size(), 0x77);
			if (ucall(o, t, u.pack, {W(back), I(out)}))
				same(o, "repacked bytes", back.p, b.data(), b.size());
		}
	};
	c.count = N(15 * 1000, 15 * 30000, 128);
	P.checks.push_back(c);
	c.guide = {"bytes"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(15));

	c.name = "compare-packed";
	c.rule = "packing compared with given bytes on the fly (Cortex-M4): zero exactly when the bytes are the packing; bytes equal to it, differing in one place, or in places whose differences cancel";
	c.targets = [] { return all_targets([](Target &t) { return t.sym("vf_cmp_t") || t.sym("vf_cmp_p") || t.sym("vf_cmp_p1"); }); };
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		int ui = i % 3, w = ui ? 10 : t->P.ET;
		size_t n = 256 * (ui == 1 ? t->P.L : 1);
		std::vector<u16> c;
		for (size_t j = 0; j < n; j += 256) {
			auto x = gen_coeffs(r, 256, r.chance(1, 2) ? w : 16);
			c.insert(c.end(), x.begin(), x.end());
		}
		Bytes b(n * w / 8);
		model::pack(b.data(), c.data(), n, w);
		int m = r.below(5);
		size_t p = r.chance(1, 4) ? b.size() - 1 - r.below(8) : r.below(b.size());
		u8 d = r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255);
		if (m)
			b[p] ^= d;
		if (m == 4) // the same difference elsewhere
			b[(p + (r.chance(1, 2) ? 4 << r.below(7) : 1 + r.below(b.size() - 1))) % b.size()] ^= d;
		k.n["unit"] = ui;
		k.b["coeffs"] = b16(c);
		k.b["bytes"] = b;
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		int ui = k.n.at("unit") % 3, w = ui ? 10 : t->P.ET;
		static const char *name[] = {"vf_cmp_t", "vf_cmp_p", "vf_cmp_p1"};
		if (!t->sym(name[ui]))
			return;
		auto c = v16(k.b.at("coeffs"));
		Bytes want(c.size() * w / 8);
		model::pack(want.data(), c.data(), c.size(), w);
		Buf in(k.b.at("coeffs")), by(k.b.at("bytes"));
		u64 rv = 0;
		if (!ucall(o, t, name[ui], {I(by), I(in)}, &rv))
			return;
		bool eq = want == k.b.at("bytes");
		o.nontrivial = true;
		o.cls(eq ? "equal" : "different");
		if (((u32)rv == 0) != eq)
			o.bad(strf("%s returned %u for %s bytes", name[ui], (u32)rv, eq ? "equal" : "different"));
	};
	c.count = N(40000, 1000000, 64);
	P.checks.push_back(c);
	c.guide = {"coeffs", "bytes"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(3));
});
// ---------------------------------------------------------------- C08
static Registrar r08("C08", [](Property &P) {
	P.assumptions = {"OpenSSL's SHAKE-128 and AES-256-CTR define the streams"};
	Check c;
	c.name = "matrix";
	c.rule = "public matrix from a generated seed compared with the unpacked stream";
	c.targets = having({"vf_genmatrix"});
	c.gen = [](Rng &r, Case &k, u64, Target *) { k.b["seed"] = r.chance(1, 2) ? uniform_bytes(r, 32) : gen_bytes(r, 32); };
	c.run = [](const Case &k, Out &o, Target *t) {
		int n = t->P.L * t->P.L * 256;
		std::vector<u16> want(n);
		model::gen_matrix(t->P, want.data(), k.b.at("seed").data());
		Buf out(2 * n, 0x3c), seed(k.b.at("seed"));
		if (!ucall(o, t, "vf_genmatrix", {W(out), I(seed)}))
			return;
		o.nontrivial = true;
		same16(o, "matrix", (u16 *)out.p, want.data(), n, t->P.EQ);
	};
	c.count = N(3000, 100000, 64);
	P.checks.push_back(c);
	c.guide = {"seed"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(1));
	c.name = "secret";
	c.rule = "secret vector from a generated seed compared with the specified sampler";
	c.targets = having({"vf_gensecret"});
	c.run = [](const Case &k, Out &o, Target *t) {
		int n = t->P.L * 256;
		std::vector<u16> want(n);
		model::gen_secret(t->P, want.data(), k.b.at("seed").data());
		Buf out(2 * n, 0x3c), seed(k.b.at("seed"));
		if (!ucall(o, t, "vf_gensecret", {W(out), I(seed)}))
			return;
		o.nontrivial = true;
		same16(o, "secret", (u16 *)out.p, want.data(), n, t->P.EQ);
		for (int i = 0; i < n && o.fail.empty(); i++) {
			unsigned m = (1 << t->P.EQ) - 1, v = ((u16 *)out.p)[i] & m;
			int s = v > m / 2 ? (int)v - (int)m - 1 : (int)v;
			if (s < -t->P.half() || s > t->P.half())
				o.bad(strf("secret coefficient %d is %d", i, s));
		}
	};
	c.count = N(3000, 100000, 64);
	P.checks.push_back(c);
	c.guide = {"seed"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(1));
	c.name = "sampler";
	c.rule = "arbitrary stream bytes through the binomial sampler, including all byte values at every position (index-driven)";
	c.targets = [] {
		return all_targets([](Target &t) { return !t.P.uni && t.sym("vf_cbd"); });
	};
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		Bytes b = i % 3 == 0 ? uniform_bytes(r, t->P.coin()) : gen_bytes(r, t->P.coin());
		if (i % 3 == 1) { // sweep: neighbouring byte pairs take every value over the run
			u64 x = i / 3;
			for (size_t j = 0; j + 1 < b.size(); j += 2) {
				u64 v = x * 131 + j * 257 + (x >> 8);
				b[j] = v;
				b[j + 1] = v >> 8;
			}
		}
		k.b["stream"] = b;
		k.n["align"] = r.below(64);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		std::vector<u16> want(256);
		model::sample(t->P, want.data(), k.b.at("stream").data());
		Buf out(512, 0x3c), in(k.b.at("stream"), k.n.at("align") & 63);
		if (!ucall(o, t, "vf_cbd", {W(out), I(in)}))
			return;
		o.nontrivial = true;
		if (!out.intact())
			o.bad("sampler wrote outside its output");
		same16(o, "sampled polynomial", (u16 *)out.p, want.data(), 256, t->P.EQ);
	};
	c.count = N(12000, 400000, 256);
	P.checks.push_back(c);
	c.guide = {"stream"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(1));
	c.name = "matrix-x4";
	c.rule = "four matrices from four generated seeds at once";
	c.targets = having({"vf_x4_genmatrix"});
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		Bytes s;
		for (int i = 0; i < 4; i++) {
			Bytes x = r.chance(1, 2) ? uniform_bytes(r, 32) : gen_bytes(r, 32);
			s.insert(s.end(), x.begin(), x.end());
		}
		k.b["seeds"] = s;
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		int n = t->P.L * t->P.L * 256;
		std::vector<u16> want(4 * n);
		for (int l = 0; l < 4; l++)
			model::gen_matrix(t->P, &want[l * n], k.b.at("seeds").data() + 32 * l);
		Buf out(8 * n, 0x3c), seed(k.b.at("seeds"));
		if (!ucall(o, t, "vf_x4_genmatrix", {W(out), I(seed)}))
			return;
		o.nontrivial = true;
		same16(o, "matrix", (u16 *)out.p, want.data(), 4 * n, t->P.EQ);
	};
	c.count = N(10000, 300000, 64);
	P.checks.push_back(c);
	c.guide = {"seeds"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(1));
});
// ---------------------------------------------------------------- C09
struct HashUnit {
	const char *sym;
	char kind; // 3: sha3-256, 5: sha3-512, s: shake128, 2: sha256, 6: sha512
};
static const HashUnit hashes[] = {{"vf_sha3_256", '3'}, {"vf_sha3_512", '5'}, {"vf_shake128", 's'}, {"vf_sha256", '2'}, {"vf_sha512", '6'}, {"vf_shake256", 'S'}};
static const int NHASH = sizeof hashes / sizeof *hashes;
static Bytes ref_hash(char kind, const Bytes &in, size_t on)
{
	Bytes o(kind == '3' || kind == '2' ? 32 : kind == '5' || kind == '6' ? 64 : on);
	switch (kind) {
	case '3': model::sha3_256(o.data(), in.data(), in.size()); break;
	case '5': model::sha3_512(o.data(), in.data(), in.size()); break;
	case '2': model::sha256(o.data(), in.data(), in.size()); break;
	case '6': model::sha512(o.data(), in.data(), in.size()); break;
	case 's': model::shake(128, o.data(), on, in.data(), in.size()); break;
	case 'S': model::shake(256, o.data(), on, in.data(), in.size()); break;
	}
	return o;
}
static size_t gen_len(Rng &r, u64 i, size_t sweep)
{
	static const int rates[] = {64, 128, 136, 168, 72, 104, 111, 55, 56, 112, 16, 192};
	switch (r.below(4)) {
	case 0:
	case 1:
		return i % sweep;
	case 2: {
		int64_t v = (int64_t)rates[r.below(12)] * r.range(1, 8) + r.range(-3, 3);
		return v < 0 ? 0 : v;
	}
	default:
		return r.chance(1, 8) ? r.below(20000) : r.below(1500);
	}
}
static Bytes stretch(const Bytes &b, size_t n) // aperiodic filler from a short seed
{
	u64 x = hash64(b.data(), b.size(), 1) | 1;
	Bytes m(n);
	for (size_t i = 0; i < n; i += 8) {
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		u64 y = x ^ x >> 29;
		memcpy(&m[i], &y, std::min<size_t>(8, n - i));
	}
	return m;
}
static Bytes filler(u64 salt, size_t n) { return stretch(Bytes((const u8 *)&salt, (const u8 *)&salt + 8), n); }
// lengths whose block counts, byte counts or bit counts pass a power of two that a narrow counter cannot hold
static size_t gen_long(Rng &r)
{
	static const u32 at[] = {1u << 12, 1u << 13, 1u << 15, 1u << 16, 1u << 19, 1u << 20, 1u << 21, 136u << 8, 168u << 8, 168u << 12, 136u << 12};
	size_t v = at[r.below(11)] + r.range(-70, 300);
	return r.chance(1, 4) ? r.range(60000, 2500000) : v;
}
static Registrar r09("C09", [](Property &P) {
	P.assumptions = {"OpenSSL's implementations of the same standards are the oracle"};
	Check c;
	c.name = "hash";
	c.rule = "digest of a generated message (all lengths swept by index, block boundaries, long) compared with OpenSSL; separate or shared buffer; output length swept for the XOF";
	c.targets = having({"vf_sha3_256"});
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		int u = i % NHASH;
		k.n["unit"] = u;
		k.b["msg"] = gen_bytes(r, gen_len(r, i / NHASH, 700));
		k.n["outlen"] = hashes[u].kind == 's' || hashes[u].kind == 'S' ? gen_len(r, i / NHASH * 7 + 3, 900) : 0;
		k.n["inplace"] = r.chance(1, 3);
		k.n["align"] = r.below(64);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		const HashUnit &u = hashes[k.n.at("unit") % NHASH];
		if (!t->sym(u.sym))
			return;
		size_t on = std::min<int64_t>(std::max<int64_t>(k.n.at("outlen"), 0), 8 << 20);
		Bytes m = k.b.at("msg");
		if (k.n.count("msglen"))
			m = stretch(m, std::min<int64_t>(std::max<int64_t>(k.n.at("msglen"), 0), 700 << 20));
		Bytes want = ref_hash(u.kind, m, on);
		bool ip = k.n.at("inplace");
		size_t al = k.n.at("align") & 63;
		Bytes first = m;
		first.resize(std::max(m.size(), want.size()), 0x42);
		Buf a(ip ? first : m, al), b(want.size(), 0x42, (al * 7) & 63);
		Buf &ob = ip ? a : b;
		u8 *out = ob.p;
		if (u.kind == 's' || u.kind == 'S' ? !ucall(o, t, u.sym, {W(ob), V(on), I(a), V(m.size())}) : !ucall(o, t, u.sym, {W(ob), I(a), V(m.size())}))
			return;
		o.nontrivial = true;
		o.cls(std::string(u.sym + 3) + (ip ? "/in-place" : ""));
		if (!same(o, strf("%s of %zu bytes", u.sym + 3, m.size()).c_str(), out, want.data(), want.size()))
			return;
		if (ip) {
			for (size_t i = want.size(); i < first.size(); i++)
				if (a.p[i] != first[i]) {
					o.bad("bytes beyond the output changed");
					return;
				}
		} else if (!same(o, "message buffer", a.p, m.data(), m.size()))
			return;
		if (!a.intact() || !b.intact())
			o.bad("wrote outside the buffers");
	};
	c.count = N(6000, 200000, 128);
	P.checks.push_back(c);
	c.guide = {"msg"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(6));

	c.name = "hash-long";
	c.rule = "messages or outputs up to a few megabytes (thorough: also beyond 2^32 bits), around sizes where a narrow length or block counter would wrap";
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		int u = i % NHASH;
		bool xof = hashes[u].kind == 's' || hashes[u].kind == 'S', out = xof && r.chance(1, 2);
		k.n["unit"] = u;
		k.b["msg"] = uniform_bytes(r, 16);
		k.n["msglen"] = out ? r.below(300) : gen_long(r);
		k.n["outlen"] = out ? gen_long(r) : xof ? r.below(300) : 0;
		if (t->emulated()) { // megabytes do not fit there
			k.n["msglen"] %= 9000;
			k.n["outlen"] %= 9000;
		} else if (g_thorough && i < NHASH)
			k.n["msglen"] = (1 << 29) + r.below(200);
		k.n["inplace"] = 0;
		k.n["align"] = r.below(64);
	};
	c.count = [](Target *t) {
		u64 n = t->kind == "host" ? 36 : 6;
		return std::pair<u64, u64>(g_thorough ? n * 40 : n, 6);
	};
	P.checks.push_back(c);

	c.name = "aes-ctr";
	c.rule = "AES-256-CTR keystream of every length from generated keys and nonces (zero nonce, 96-bit nonce, 128-bit counter near a carry), compared with OpenSSL";
	c.targets = [] { return all_targets([](Target &t) { return !t.emulated() && (t.sym("vf_aes_prf") || t.sym("vf_aes_nonce12") || t.sym("vf_aes_stream16")); }); };
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		k.n["unit"] = i % 4;
		k.n["outlen"] = gen_len(r, i / 4, 1200);
		k.b["key"] = gen_bytes(r, 32);
		Bytes n = r.chance(1, 2) ? uniform_bytes(r, 16) : gen_bytes(r, 16);
		if (r.chance(2, 3)) { // the counter carries within the request
			size_t ff = r.range(1, 15);
			for (size_t j = 16 - ff; j < 16; j++)
				n[j] = 0xff;
			n[15] -= r.below(r.chance(1, 2) ? 40 : 200);
			if (r.chance(1, 3))
				n[15] = 256 - r.range(1, 33);
		}
		k.b["nonce"] = n;
		k.b["steps"] = gen_bytes(r, r.range(1, 8));
		k.n["inplace"] = r.chance(1, 4);
		k.n["align"] = r.below(64);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		size_t on = std::min<int64_t>(std::max<int64_t>(k.n.at("outlen"), 0), 8 << 20);
		Bytes key = k.b.at("key"), n = k.b.at("nonce");
		int unit = k.n.at("unit") & 3;
		size_t al = k.n.at("align") & 63;
		Bytes iv(16, 0);
		if (unit == 0) { // the scheme's PRF
			auto f = fn<void (*)(u8 *, u64, const u8 *)>(t, "vf_aes_prf");
			if (!f)
				return;
			bool ip = k.n.at("inplace");
			Bytes want(on);
			model::aes_ctr(want.data(), on, key.data(), iv.data());
			Bytes first = key;
			first.resize(std::max<size_t>(32, on), 1);
			Buf kb(ip ? first : key, (al * 5) & 63), b(on, 0x42, al);
			u8 *out = ip ? kb.p : b.p;
			f(out, on, kb.p);
			same(o, "AES-CTR PRF output", out, want.data(), on);
			if (!kb.intact() || !b.intact())
				o.bad("wrote outside the buffers");
			o.cls(ip ? "prf/in-place" : "prf");
		} else if (unit == 1) {
			auto f = fn<void (*)(u8 *, u64, const u8 *, const u8 *)>(t, "vf_aes_nonce12");
			if (!f)
				return;
			memcpy(iv.data(), n.data(), 12);
			Bytes want(on);
			model::aes_ctr(want.data(), on, key.data(), iv.data());
			Buf b(on, 0x42, al), kb(key), nb(slice_(n, 12));
			f(b.p, on, kb.p, nb.p);
			same(o, "AES-CTR output", b.p, want.data(), on);
			if (!b.intact())
				o.bad("wrote outside the buffer");
			o.cls("nonce12");
		} else if (unit == 2) {
			auto f = fn<void (*)(u8 *, const unsigned long *, unsigned long, const u8 *, const u8 *)>(t, "vf_aes_incremental");
			if (!f)
				return;
			memcpy(iv.data(), n.data(), 12);
			std::vector<unsigned long> st;
			size_t tot = 0, mult = k.n.count("mult") ? 1 + (k.n.at("mult") & 0x7ff) : 1;
			for (u8 x : k.b.at("steps"))
				st.push_back(x % 13 * mult), tot += x % 13 * mult * 64;
			Bytes want(tot);
			model::aes_ctr(want.data(), tot, key.data(), iv.data());
			Buf b(tot, 0x42, al), kb(key), nb(slice_(n, 12));
			f(b.p, st.data(), st.size(), kb.p, nb.p);
			same(o, "incremental AES-CTR output", b.p, want.data(), tot);
			if (!b.intact())
				o.bad("wrote outside the buffer");
			o.cls("incremental");
		} else {
			auto f = fn<int (*)(u8 *, u64, const u8 *, const u8 *)>(t, "vf_aes_stream16");
			if (!f)
				return;
			Bytes want(on);
			model::aes_ctr(want.data(), on, key.data(), n.data());
			Buf b(on, 0x42, al), kb(key, (al * 3) & 63), nb(n, (al * 11) & 63);
			if (f(b.p, on, nb.p, kb.p))
				o.bad("crypto_stream reported an error");
			same(o, "crypto_stream output", b.p, want.data(), on);
			if (!b.intact() || !same(o, "nonce", nb.p, n.data(), 16))
				o.bad("wrote outside the buffer");
			o.cls("stream16");
		}
		o.nontrivial = true;
	};
	c.count = N(12000, 300000, 128);
	P.checks.push_back(c);
	c.guide = {"key", "nonce"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(4));
	auto short_gen = c.gen;
	c.name = "aes-ctr-long";
	c.rule = "the same keystreams, long enough (up to a few megabytes) for every byte of the block counter that can to carry";
	c.gen = [short_gen](Rng &r, Case &k, u64 i, Target *t) {
		short_gen(r, k, i, t);
		k.n["outlen"] = gen_long(r);
		k.n["mult"] = r.below(1700);
	};
	c.count = N(48, 2000, 8);
	P.checks.push_back(c);

	c.name = "four-way";
	c.rule = "the four-way hashes on four generated messages of one length, each lane against OpenSSL, then with the other lanes replaced; shared or separate buffers";
	c.targets = having({"vf_shake128x4"});
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		k.n["unit"] = i % 4;
		size_t n = gen_len(r, i / 4, 700);
		if (n > 3000)
			n %= 3000;
		for (int l = 0; l < 4; l++)
			k.b[strf("m%d", l)] = r.chance(1, 4) && l ? k.b["m0"] : gen_bytes(r, n);
		k.n["outlen"] = gen_len(r, i / 4 * 7 + 5, 900);
		k.n["keep"] = r.below(4);
		k.n["inplace"] = r.chance(1, 4);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		static const char *syms[] = {"vf_shake128x4", "vf_shake256x4", "vf_sha3_256x4", "vf_sha3_512x4"};
		static const char kinds[] = {'s', 'S', '3', '5'};
		int u = k.n.at("unit") & 3;
		if (!t->sym(syms[u]))
			return;
		size_t n = k.b.at("m0").size();
		size_t on = u == 2 ? 32 : u == 3 ? 64 : std::min<int64_t>(std::max<int64_t>(k.n.at("outlen"), 0), 20000);
		bool ip = k.n.at("inplace");
		for (int round = 0; round < 2; round++) {
			std::vector<Buf> in, out;
			in.reserve(4);
			out.reserve(4);
			std::vector<Bytes> msg;
			for (int l = 0; l < 4; l++) {
				Bytes m = k.b.at(strf("m%d", l));
				m.resize(n);
				if (round && l != (k.n.at("keep") & 3))
					for (auto &x : m)
						x = ~x * 5 + l;
				msg.push_back(m);
				Bytes p = m;
				if (ip)
					p.resize(std::max(n, on), 0x21);
				in.emplace_back(p, (l * 9) & 63);
				out.emplace_back(on, (u8)0x21, (l * 5) & 63);
			}
			u8 *op[4], *inp[4];
			for (int l = 0; l < 4; l++)
				inp[l] = in[l].p, op[l] = ip ? in[l].p : out[l].p;
			if (u < 2)
				fn<void (*)(u8 **, u64, u8 **, u64)>(t, syms[u])(op, on, inp, n);
			else
				fn<void (*)(u8 **, u8 **, u64)>(t, syms[u])(op, inp, n);
			for (int l = 0; l < 4; l++) {
				Bytes want = ref_hash(kinds[u], msg[l], on);
				if (!same(o, strf("%s lane %d of %zu bytes", syms[u] + 3, l, n).c_str(), op[l], want.data(), on))
					return;
				if (!in[l].intact() || !out[l].intact()) {
					o.bad("wrote outside the buffers");
					return;
				}
				if (!ip && !same(o, "message buffer", in[l].p, msg[l].data(), n))
					return;
			}
		}
		o.nontrivial = true;
		o.cls(std::string(syms[u] + 3) + (ip ? "/in-place" : ""));
	};
	c.count = N(40000, 800000, 128);
	P.checks.push_back(c);
	c.guide = {"m0", "m1", "m2", "m3"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(4));
});
// ---------------------------------------------------------------- C10
static Registrar r10("C10", [](Property &P) {
	P.assumptions = {"OpenSSL's AES-256 is correct; the DRBG model was validated through the repository's KAT files",
			 "a seed-expander request for exactly the remaining bytes may be refused or served: the documentation allows both readings"};
	Check c;
	c.name = "drbg";
	c.rule = "a generated history of initialisations (with and without personalisation) and requests, every output compared with the SP 800-90A model; at least one request";
	c.targets = having({"vf_drbg_bytes", "vf_drbg_init"});
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		int n = r.range(1, 12);
		Bytes ops;
		for (int i = 0; i < n; i++) {
			// kind, length lo, length hi, salt
			int kind = i == 0 ? r.range(0, 2) : r.below(10);
			unsigned len = r.chance(1, 3) ? r.below(4) * 16 + r.range(0, 2) : r.chance(1, 8) ? r.below(6000) : r.below(300);
			ops.insert(ops.end(), {(u8)kind, (u8)len, (u8)(len >> 8), r.byte()});
		}
		k.b["ops"] = ops;
		k.b["entropy"] = gen_bytes(r, 48);
		k.b["pers"] = gen_bytes(r, 48);
		k.b["wanted_v"] = r.chance(1, 2) ? Bytes(16, 0xff) : gen_bytes(r, 16);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		auto init = fn<void (*)(u8 *, u8 *, int)>(t, "vf_drbg_init");
		auto get = fn<int (*)(u8 *, u64)>(t, "vf_drbg_bytes");
		auto lane = fn<int (*)(int, u8 *, u64)>(t, "vf_drbg_lane");
		const int *codes = (const int *)t->sym("vf_rng_codes");
		model::Drbg d, dl[4];
		const Bytes &ops = k.b.at("ops");
		for (size_t i = 0; i + 3 < ops.size(); i += 4) {
			int kind = i == 0 ? ops[i] % 3 : ops[i] % 10;
			size_t len = ops[i + 1] | ops[i + 2] << 8;
			if (kind < 3) {
				Bytes e = k.b.at("entropy"), p = k.b.at("pers");
				e[ops[i + 3] % 48] ^= ops[i + 3];
				if (kind == 2) { // entropy chosen so that the counter starts at wanted_v
					u8 z[32] = {0}, ctr[16] = {0}, blk[16];
					ctr[15] = 3;
					model::aes_ecb(blk, z, ctr);
					for (int j = 0; j < 16; j++)
						e[32 + j] = blk[j] ^ k.b.at("wanted_v")[j];
				}
				Buf eb(e), pb(p);
				bool pers = kind == 1;
				init(eb.p, pers ? pb.p : nullptr, 256);
				if (!same(o, "entropy input", eb.p, e.data(), 48) || !same(o, "personalisation", pb.p, p.data(), 48))
					return;
				d.init(e.data(), pers ? p.data() : nullptr);
				for (auto &x : dl)
					x = d;
				o.cls(pers ? "init+pers" : kind == 2 ? "init-chosen-V" : "init");
				continue;
			}
			Bytes want(len);
			Buf b(len, ops[i + 3], ops[i + 3] & 63);
			int rc;
			if (kind >= 8 && lane) {
				int l = ops[i + 3] & 3;
				dl[l].gen(want.data(), len);
				rc = lane(l, b.p, len);
				o.cls("lane");
			} else {
				d.gen(want.data(), len);
				rc = get(b.p, len);
				o.cls("request");
			}
			o.nontrivial = true;
			if (codes && rc != codes[0]) {
				o.bad(strf("request of %zu bytes returned %d", len, rc));
				return;
			}
			if (!same(o, strf("random bytes of request %zu (%zu bytes)", i / 4, len).c_str(), b.p, want.data(), len))
				return;
			if (!b.intact()) {
				o.bad("request wrote outside its buffer");
				return;
			}
		}
	};
	c.count = N(2500, 80000, 64);
	P.checks.push_back(c);
	c.guide = {"entropy", "pers", "wanted_v"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(2));

	c = Check();
	c.name = "drbg-long";
	c.rule = "one request of up to a few megabytes (around sizes where a narrow index or block counter would wrap) between two short ones, compared with the SP 800-90A model";
	c.targets = having({"vf_drbg_bytes", "vf_drbg_init"});
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		k.b["entropy"] = gen_bytes(r, 48);
		k.n["first"] = r.below(100);
		k.n["len"] = gen_long(r);
		k.n["then"] = r.below(100);
		k.n["lane"] = r.range(-1, 3);
		k.n["align"] = r.below(64);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		auto get = fn<int (*)(u8 *, u64)>(t, "vf_drbg_bytes");
		auto lane = fn<int (*)(int, u8 *, u64)>(t, "vf_drbg_lane");
		const int *codes = (const int *)t->sym("vf_rng_codes");
		Buf e(k.b.at("entropy"));
		fn<void (*)(u8 *, u8 *, int)>(t, "vf_drbg_init")(e.p, nullptr, 256);
		model::Drbg d;
		d.init(k.b.at("entropy").data(), nullptr);
		int l = k.n.at("lane");
		for (const char *f : {"first", "len", "then"}) {
			size_t len = k.n.at(f) & 0xffffff;
			Bytes want(len);
			d.gen(want.data(), len);
			Buf b(len, 0x5a, k.n.at("align") & 63);
			int rc = l >= 0 && lane ? lane(l & 3, b.p, len) : get(b.p, len);
			if (codes && rc != codes[0]) {
				o.bad(strf("request of %zu bytes returned %d", len, rc));
				return;
			}
			if (!same(o, strf("random bytes of a request for %zu bytes", len).c_str(), b.p, want.data(), len))
				return;
			if (!b.intact()) {
				o.bad("request wrote outside its buffer");
				return;
			}
		}
		o.nontrivial = k.n.at("len") > 4000;
		o.cls(k.n.at("len") >= 1 << 20 ? "megabyte" : k.n.at("len") >= 1 << 16 ? "64k" : "4k");
	};
	c.count = N(16, 400, 4);
	P.checks.push_back(c);

	c = Check();
	c.name = "seedexpander";
	c.rule = "a generated history of initialisations (valid and over-long maxima) and reads (valid, null, over-long), compared with the AES-CTR stream and the documented codes; at least one successful read";
	c.targets = having({"vf_xof_init", "vf_xof_read", "vf_rng_codes"});
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		static const int64_t maxima[] = {1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 255, 256, 257, 1000, 65535, 65536, 70000, 0xffffff, 0xfffffffe, 0xffffffff};
		k.n["max"] = r.chance(2, 3) ? maxima[r.below(22)] : (int64_t)(r.next() & 0xffffffff) >> r.below(30);
		k.b["seed"] = gen_bytes(r, 32);
		k.b["div"] = gen_bytes(r, 8);
		int n = r.range(1, 16);
		Bytes ops;
		for (int i = 0; i < n; i++) {
			unsigned len = r.chance(1, 2) ? r.below(40) : r.chance(1, 6) ? r.below(3000) : r.below(200);
			ops.insert(ops.end(), {(u8)r.below(16), (u8)len, (u8)(len >> 8)});
		}
		k.b["ops"] = ops;
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		auto size = fn<unsigned long (*)()>(t, "vf_xof_size");
		auto init = fn<int (*)(void *, u8 *, u8 *, unsigned long)>(t, "vf_xof_init");
		auto rd = fn<int (*)(void *, u8 *, unsigned long)>(t, "vf_xof_read");
		const int *code = (const int *)t->sym("vf_rng_codes");
		for (int i = 0; i < 4; i++)
			for (int j = 0; j < i; j++)
				if (code[i] == code[j]) {
					o.bad("error codes are not distinct");
					return;
				}
		u64 max = (u64)k.n.at("max") & 0xffffffffu;
		Buf st(size(), 0xd1);
		Buf seed(k.b.at("seed")), div(k.b.at("div"));
		if (init(st.p, seed.p, div.p, max) != code[0]) {
			o.bad(strf("initialisation with maximum %llu failed", (unsigned long long)max));
			return;
		}
		u8 iv[16] = {0};
		memcpy(iv, div.p, 8);
		for (int i = 0; i < 4; i++)
			iv[8 + i] = max >> (24 - 8 * i);
		Bytes stream;
		u64 pos = 0;
		const Bytes &ops = k.b.at("ops");
		for (size_t i = 0; i + 2 < ops.size(); i += 3) {
			int kind = ops[i] % 16;
			u64 len = ops[i + 1] | ops[i + 2] << 8;
			if (kind == 0) { // bad maximum: refused, state kept
				u8 s2[32] = {9}, d2[8] = {7};
				int rc = init(st.p, s2, d2, 0x100000000ul + (len << (len & 31)));
				if (rc != code[1]) {
					o.bad(strf("over-long maximum returned %d", rc));
					return;
				}
				o.cls("bad-max");
				continue;
			}
			if (kind == 1) { // null buffer
				int rc = rd(st.p, nullptr, len);
				if (rc != code[2]) {
					o.bad(strf("null buffer returned %d", rc));
					return;
				}
				o.cls("null");
				continue;
			}
			if (kind == 2) { // more than is left
				u64 ask = max - pos + 1 + (len & 255);
				Bytes canary(4096, 0x6e);
				int rc = rd(st.p, canary.data(), ask);
				if (rc != code[3]) {
					o.bad(strf("request for %llu bytes with %llu left returned %d", (unsigned long long)ask, (unsigned long long)(max - pos), rc));
					return;
				}
				if (canary != Bytes(4096, 0x6e)) {
					o.bad("a refused request wrote output");
					return;
				}
				o.cls("too-long");
				continue;
			}
			if (kind == 3 && max - pos < 5000)
				len = max - pos; // exactly the rest
			if (kind == 4 && max - pos > 1 && max - pos < 5000)
				len = max - pos - 1;
			Buf b(len, ops[i] * 17, ops[i + 1] & 63);
			int rc = rd(st.p, b.p, len);
			if (!b.intact()) {
				o.bad("a read wrote outside its buffer");
				return;
			}
			u64 left = max - pos;
			if (len > left || (len == left && rc != code[0])) {
				if (rc != code[3]) {
					o.bad(strf("request for %llu bytes with %llu left returned %d", (unsigned long long)len, (unsigned long long)left, rc));
					return;
				}
				o.cls(len == left ? "exact-refused" : "too-long");
				continue;
			}
			if (rc != code[0]) {
				o.bad(strf("request for %llu bytes with %llu left returned %d", (unsigned long long)len, (unsigned long long)left, rc));
				return;
			}
			if (stream.size() < pos + len) {
				stream.resize(pos + len + 64);
				model::aes_ctr(stream.data(), stream.size(), k.b.at("seed").data(), iv);
			}
			if (!same(o, strf("stream bytes %llu to %llu", (unsigned long long)pos, (unsigned long long)(pos + len)).c_str(), b.p, stream.data() + pos, len))
				return;
			pos += len;
			o.nontrivial |= len > 0;
			o.cls("read");
		}
	};
	c.count = N(6000, 200000, 128);
	P.checks.push_back(c);
	c.guide = {"seed", "div"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(2));
});
// ---------------------------------------------------------------- C15
static Registrar r15("C15", [](Property &P) {
	P.assumptions = {"flags other than 0 and 1 are outside the documented use of the conditional copy"};
	Check c;
	c.name = "compare";
	c.rule = "two generated strings of a swept length that differ in zero, one (position swept), or several bytes chosen so that sums or exclusive-ors of differences cancel; bytes after the length differ";
	c.targets = having({"vf_verify"});
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		size_t n = r.chance(1, 2) ? i % 1600 : r.chance(1, 2) ? t->P.ct() : r.below(2000);
		k.b["a"] = gen_bytes(r, n);
		Bytes b = k.b["a"];
		int m = r.below(6);
		if (n && m) {
			size_t p = r.chance(1, 2) ? (i * 7919) % n : r.chance(1, 2) ? n - 1 - r.below(std::min<size_t>(n, 40)) : r.below(n);
			u8 d = r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255);
			if (m <= 2)
				b[p] ^= d;
			else if (m == 3) { // exclusive-or of all differences is zero
				size_t q = r.below(n), x = r.below(n);
				b[p] ^= d;
				b[q] ^= d;
				(void)x;
			} else if (m == 4) { // sums cancel; 256 equal differences sum to zero modulo 256
				if (r.chance(1, 2)) {
					b[p] += d;
					b[r.below(n)] -= d;
				} else
					for (size_t j = 0; j < 256 && j < n; j++)
						b[(p + j) % n] ^= d;
			} else
				for (auto &x : b)
					x = r.byte();
		}
		k.b["b"] = b;
		k.n["align_a"] = r.below(64);
		k.n["align_b"] = r.below(64);
		k.n["tail"] = r.chance(1, 2) ? 64 : 0;
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		const Bytes &a = k.b.at("a"), &b = k.b.at("b");
		size_t n = std::min(a.size(), b.size());
		size_t tail = k.n.at("tail") & 64; // differing bytes behind the strings, or nothing at all
		Buf A(n + tail, 0x11, k.n.at("align_a") & 63), B(n + tail, 0x22, k.n.at("align_b") & 63);
		memcpy(A.p, a.data(), n);
		memcpy(B.p, b.data(), n);
		int want = memcmp(a.data(), b.data(), n) != 0;
		u64 rv = 0;
		if (!ucall(o, t, "vf_verify", {I(A), I(B), V(n)}, &rv))
			return;
		int got = (int)rv;
		o.nontrivial = true;
		o.cls(want ? "differ" : "equal");
		if (got != want)
			o.bad(strf("comparison of %zu bytes returned %d, expected %d", n, got, want));
	};
	c.count = N(20000, 600000, 512);
	P.checks.push_back(c);
	c.guide = {"a", "b"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(2));
	Check cl;
	cl.name = "compare-long";
	cl.rule = "two long strings (up to megabytes, some cases beyond 2^31 and 2^32 bytes) equal but for at most two bytes, mostly near the end or near a power of two; bytes after the length differ";
	cl.targets = c.targets;
	cl.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		u64 len = r.chance(1, 3) ? 1 + r.below(300000) : gen_long(r);
		bool slow = t->id.find('+') != std::string::npos; // and the sources do not depend on the parameter set
		for (auto &x : g_targets)
			if (x->family == t->family) {
				slow |= x.get() != t;
				break;
			}
		if (t->emulated())
			len = 1 + len % 9000;
		else if (i < (g_thorough ? slow ? 3 : 30 : slow ? 0 : 3))
			len = (1ull << (i % 3 == 1 ? 31 : 32)) + (i % 3 == 2 ? 0 : r.below(100));
		k.n["len"] = len;
		int m = i < 3 ? 1 : r.below(4);
		k.n["diffs"] = m == 3 ? 2 : m > 0;
		for (const char *p : {"pos0", "pos1"}) {
			u64 w = r.below(4);
			u64 v = w == 0 || i % 3 == 0 ? len - 1 - r.below(std::min<u64>(len, 40)) : w == 1 ? (1ull << r.below(33)) - r.below(2) : r.next();
			k.n[p] = v % len;
		}
		k.n["xor"] = 1 + r.below(255);
		k.n["off_a"] = r.below(64);
		k.n["off_b"] = r.below(64);
	};
	cl.run = [](const Case &k, Out &o, Target *t) {
		u64 len = (u64)k.n.at("len");
		if (!len || len > 5ull << 30)
			return;
		size_t map = (len + 64 + 4096) & ~(u64)4095;
		u8 *m[2];
		for (auto &x : m) {
			x = (u8 *)mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (x == MAP_FAILED)
				_exit(4);
			madvise(x, map, MADV_HUGEPAGE);
		}
		u8 *a = m[0] + (k.n.at("off_a") & 63), *b = m[1] + (k.n.at("off_b") & 63);
		for (size_t i = 0; i < std::min<u64>(len, 1 << 20); i++)
			a[i] = b[i] = i * 7 + (i >> 8);
		a[len] = 1;
		int d = k.n.at("diffs") & 3;
		for (int i = 0; i < d && i < 2; i++)
			b[(u64)k.n.at(i ? "pos1" : "pos0") % len] ^= k.n.at("xor");
		int want = d && !(d >= 2 && k.n.at("pos0") % len == k.n.at("pos1") % len);
		u64 rv = 0;
		bool ok = true;
		if (t->emulated()) {
			Buf A(Bytes(a, a + len)), B(Bytes(b, b + len));
			ok = ucall(o, t, "vf_verify", {I(A), I(B), V(len)}, &rv);
		} else
			rv = fn<u64 (*)(u64, u64, u64, u64)>(t, "vf_verify")((u64)(uintptr_t)a, (u64)(uintptr_t)b, len, 0);
		for (auto &x : m)
			munmap(x, map);
		if (!ok)
			return;
		o.nontrivial = true;
		o.cls(len >> 31 ? "2^31 and more" : want ? "differ" : "equal");
		if ((int)rv != want)
			o.bad(strf("comparison of %llu bytes returned %d, expected %d", (unsigned long long)len, (int)rv, want));
	};
	cl.count = N(60, 1500, 6);
	P.checks.push_back(cl);
	c.name = "conditional-copy";
	c.rule = "conditional copy of a swept length with flag 0 and 1; destination, neighbours and source compared";
	c.targets = having({"vf_cmov"});
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		size_t n = r.chance(1, 2) ? i % 300 : r.chance(1, 2) ? 32 : r.below(2000);
		k.b["dst"] = gen_bytes(r, n);
		k.b["src"] = gen_bytes(r, n);
		k.n["flag"] = r.below(2);
		k.n["align"] = r.below(64);
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		const Bytes &d = k.b.at("dst"), &s = k.b.at("src");
		size_t n = std::min(d.size(), s.size());
		Buf D(Bytes(d.begin(), d.begin() + n), k.n.at("align") & 63), S(Bytes(s.begin(), s.begin() + n));
		int f = k.n.at("flag") & 1;
		if (!ucall(o, t, "vf_cmov", {W(D), I(S), V(n), V(f)}))
			return;
		o.nontrivial = n > 0;
		o.cls(f ? "move" : "keep");
		if (!same(o, "destination", D.p, f ? s.data() : d.data(), n) || !same(o, "source", S.p, s.data(), n))
			return;
		if (!D.intact() || !S.intact())
			o.bad("conditional copy touched bytes beyond its length");
	};
	c.count = N(8000, 300000, 512);
	P.checks.push_back(c);
	c.guide = {"dst", "src"};
	c.guide_fix = nullptr;
	add_guided(P, c, G(2));
	Check cc;
	cc.name = "copy-long";
	cc.rule = "conditional copy of up to megabytes (thorough: beyond 2^32 bytes, on aliased pages) with flag 0 and 1";
	cc.targets = c.targets;
	cc.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		u64 len = gen_long(r);
		if (t->emulated())
			len = 1 + len % 9000;
		else if (g_thorough && i < 2)
			len = (1ull << 32) + r.below(100);
		k.n["len"] = len;
		k.n["flag"] = i < 2 ? !(i & 1) : r.below(2);
		k.n["salt"] = r.below(1 << 20);
	};
	cc.run = [](const Case &k, Out &o, Target *t) {
		u64 len = (u64)k.n.at("len");
		if (len > 5ull << 30)
			return;
		int f = k.n.at("flag") & 1, salt = k.n.at("salt");
		o.nontrivial = len > 0;
		o.cls(f ? "move" : "keep");
		if (len < 16 << 20) {
			Bytes d = filler(salt + 1, len), s = filler(salt + 2, len);
			Buf D(d, salt & 63), S(s, (salt >> 6) & 63);
			if (!ucall(o, t, "vf_cmov", {W(D), I(S), V(len), V(f)}))
				return;
			if (same(o, "destination", D.p, f ? s.data() : d.data(), len) && same(o, "source", S.p, s.data(), len) && !(D.intact() && S.intact()))
				o.bad("conditional copy touched bytes beyond its length");
			return;
		}
		// all windows but the last show the same pages
		const u64 w = 1 << 20, wins = len / w;
		u8 *m[2];
		for (int j = 0; j < 2; j++) {
			int fd = memfd_create("w", 0);
			if (fd < 0 || ftruncate(fd, w))
				_exit(4);
			m[j] = (u8 *)mmap(nullptr, (wins + 2) * w, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			for (u64 x = 0; x < wins; x++)
				mmap(m[j] + x * w, w, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
			close(fd);
		}
		Bytes d = filler(salt + 1, w), s = filler(salt + 2, w), dl = filler(salt + 3, 2 * w), sl = filler(salt + 4, 2 * w);
		memcpy(m[0], d.data(), w);
		memcpy(m[1], s.data(), w);
		memcpy(m[0] + wins * w, dl.data(), 2 * w);
		memcpy(m[1] + wins * w, sl.data(), 2 * w);
		fn<void (*)(u64, u64, u64, u64)>(t, "vf_cmov")((u64)(uintptr_t)m[0], (u64)(uintptr_t)m[1], len, f);
		if (f) {
			d = s;
			std::copy(sl.begin(), sl.begin() + (len - wins * w), dl.begin());
		}
		same(o, "destination", m[0], d.data(), w) && same(o, "destination's end", m[0] + wins * w, dl.data(), 2 * w) &&
			same(o, "source", m[1], s.data(), w) && same(o, "source's end", m[1] + wins * w, sl.data(), 2 * w);
		for (auto x : m)
			munmap(x, (wins + 2) * w);
	};
	cc.count = N(24, 600, 4);
	P.checks.push_back(cc);
});
// ---------------------------------------------------------------- C22
// The component checks again, on AddressSanitizer builds: what is judged there is that calls stay within
// what they are given.
static Registrar r22("C22", [](Property &P) {
	P.assumptions = {"AddressSanitizer sees every access of the C sources; assembly is covered on the emulated targets of C06 to C09, C15 and C17",
			 "array indices, shift counts and divisors are checked by the compiler's instrumentation in the same builds"};
	for (const char *id : {"C06", "C07", "C08", "C09", "C10", "C15"}) {
		Property Q;
		for (auto &f : registry().at(id))
			f(Q);
		for (Check c : Q.checks) {
			if (c.name.size() > 7 && c.name.substr(c.name.size() - 7) == "-guided")
				continue;
			c.name = std::string(id) + "-" + c.name;
			c.rule = "no access outside arguments and own storage, and the expected result: " + c.rule;
			auto base = c.count;
			c.count = [base](Target *t) {
				auto n = base(t);
				n.first = std::max<u64>(4, n.first / 6);
				n.second = std::max<u64>(1, n.second / 6);
				return n;
			};
			P.checks.push_back(c);
		}
	}
	Check c;
	c.name = "drbg-2gib";
	c.rule = "one request beyond 2^31 bytes, on aliased pages between inaccessible ones; the last megabyte compared with the model";
	auto base = having({"vf_drbg_bytes", "vf_drbg_init"});
	c.targets = [base] { // the sources do not depend on the parameter set
		std::vector<std::string> v;
		std::set<std::string> fams;
		if (g_thorough)
			for (auto &id : base())
				if (fams.insert(find_target(id)->family).second)
					v.push_back(id);
		return v;
	};
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		k.b["entropy"] = gen_bytes(r, 48);
		k.n["len"] = (1ll << 31) + 1 + r.below(1000);
		k.n["lane"] = (int)i - 1;
	};
	c.run = [](const Case &k, Out &o, Target *t) {
		u64 len = (u64)k.n.at("len");
		if (len > 5ull << 30)
			return;
		const u64 w = 1 << 20, gap = 3ull << 30;
		auto lane = fn<int (*)(int, u8 *, u64)>(t, "vf_drbg_lane");
		int l = k.n.at("lane");
		if (l >= 0 && !lane)
			return;
		Buf e(k.b.at("entropy"));
		fn<void (*)(u8 *, u8 *, int)>(t, "vf_drbg_init")(e.p, nullptr, 256);
		int fd = memfd_create("w", 0);
		u8 *m = (u8 *)mmap(nullptr, len + w + 2 * gap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *b = m + gap;
		if (fd < 0 || ftruncate(fd, w) || m == MAP_FAILED)
			_exit(4);
		for (u64 x = 0; x < len; x += w)
			mmap(b + x, w, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
		close(fd);
		if (l >= 0)
			lane(l & 3, b, len);
		else
			fn<int (*)(u8 *, u64)>(t, "vf_drbg_bytes")(b, len);
		model::Drbg d;
		d.init(k.b.at("entropy").data(), nullptr);
		u64 blk = (len - 1) / 16, first = blk - 60000; // the last blocks
		Bytes got(b + first * 16, b + len), want((blk + 1 - first) * 16);
		for (u64 j = first; j <= blk; j++) {
			u8 v[16];
			memcpy(v, d.V, 16);
			u64 add = j + 1;
			for (int i = 15; i >= 0 && add; i--) {
				add += v[i];
				v[i] = add;
				add >>= 8;
			}
			model::aes_ecb(&want[(j - first) * 16], d.K, v);
		}
		same(o, strf("last bytes of a request for %llu", (unsigned long long)len).c_str(), got.data(), want.data(), got.size());
		munmap(m, len + w + 2 * gap);
		o.nontrivial = true;
		o.cls("2 GiB");
	};
	c.count = [](Target *t) { return std::pair<u64, u64>(t->lanes == 4 ? 5 : 1, 1); };
	c.cpu_limit = 1500;
	c.no_shrink = true;
	P.checks.push_back(c);
});
// ---------------------------------------------------------------- C23
static void keccak_p(u64 *A, int rounds) // the last rounds of Keccak-f[1600]
{
	static u64 rc[24];
	static int rot[25];
	if (!rc[0]) {
		u8 R = 1;
		u64 v[24];
		for (int i = 0; i < 24; i++) {
			v[i] = 0;
			for (int j = 0; j < 7; j++) {
				if (R & 1)
					v[i] |= 1ull << ((1 << j) - 1);
				R = R << 1 ^ (R >> 7) * 0x71;
			}
		}
		for (int x = 1, y = 0, t = 0; t < 24; t++) {
			rot[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64;
			int Y = (2 * x + 3 * y) % 5;
			x = y;
			y = Y;
		}
		memcpy(rc, v, sizeof rc);
	}
	auto rol = [](u64 v, int n) { return n ? v << n | v >> (64 - n) : v; };
	for (int i = 24 - rounds; i < 24; i++) {
		u64 C[5], B[25];
		for (int x = 0; x < 5; x++)
			C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
		for (int x = 0; x < 5; x++)
			for (int y = 0; y < 5; y++)
				A[x + 5 * y] ^= C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
		for (int x = 0; x < 5; x++)
			for (int y = 0; y < 5; y++)
				B[y + 5 * ((2 * x + 3 * y) % 5)] = rol(A[x + 5 * y], rot[x + 5 * y]);
		for (int x = 0; x < 5; x++)
			for (int y = 0; y < 5; y++)
				A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
		A[0] ^= rc[i];
	}
}
struct KOp { // eight bytes of a case
	int kind, inst, a, b;
	u64 salt;
};
static std::vector<KOp> kops(const Bytes &b)
{
	std::vector<KOp> v;
	for (size_t i = 0; i + 7 < b.size(); i += 8)
		v.push_back({b[i], b[i + 1] & 3, b[i + 2], b[i + 3], b[i + 4] | (u64)b[i + 5] << 8 | (u64)b[i + 6] << 16 | (u64)b[i + 7] << 24});
	return v;
}
static Bytes kops_gen(Rng &r)
{
	Bytes b;
	for (int n = r.range(1, 20); n; n--) {
		int a = r.chance(1, 4) ? 8 * r.below(26) : r.below(201), l = r.chance(1, 4) ? 8 * r.below(26) : r.chance(1, 3) ? r.below(12) : r.below(201);
		for (int x : {(int)r.below(256), (int)r.below(4), a, l, (int)r.byte(), (int)r.byte(), (int)r.byte(), (int)r.byte()})
			b.push_back(x);
	}
	return b;
}
static void k4_run(const Case &k, Out &o, Target *t)
{
	auto f = fn<u64 (*)(int, void *, unsigned, u8 *, u8 *, unsigned, unsigned, unsigned)>(t, "vf_k4");
	auto fast = fn<u64 (*)(int, void *, unsigned, unsigned, unsigned, u8 *, u64)>(t, "vf_k4_fast");
	Buf st(fn<u64 (*)()>(t, "vf_k4_size")(), 0x9d);
	u64 S[4][25];
	auto init = [&] {
		f(0, st.p, 0, nullptr, nullptr, 0, 0, 0);
		memset(S, 0, sizeof S);
	};
	init();
	int permuted = 0;
	for (auto &q : kops(k.b.at("ops"))) {
		int kind = q.kind % 16;
		int off = q.a % 201, len = std::min(q.b, 200 - off);
		u8 *B = (u8 *)S[q.inst];
		size_t al = q.salt & 63;
		if (kind == 0 && (q.salt >> 6) % 4 == 0)
			init();
		else if (kind == 1 && off < 200) {
			f(1, st.p, q.inst, nullptr, nullptr, off, q.b, 0);
			B[off] ^= q.b;
		} else if (kind == 2 || kind == 4) {
			Bytes d = filler(q.salt, len);
			Buf b(d, al);
			f(kind, st.p, q.inst, b.p, nullptr, off, len, 0);
			for (int i = 0; i < len; i++)
				B[off + i] = kind == 2 ? B[off + i] ^ d[i] : d[i];
			if (!same(o, "input", b.p, d.data(), len) || !b.intact())
				return;
		} else if (kind == 3 || kind == 5) {
			int lanes = q.a % 26, step = lanes + (q.b & 7);
			Bytes d = filler(q.salt, 8 * (3 * step + lanes));
			Buf b(d, al);
			f(kind, st.p, 0, b.p, nullptr, lanes, step, 0);
			for (int i = 0; i < 4; i++)
				for (int j = 0; j < lanes; j++) {
					u64 v;
					memcpy(&v, &d[8 * (i * step + j)], 8);
					S[i][j] = kind == 3 ? S[i][j] ^ v : v;
				}
		} else if (kind == 6) {
			f(6, st.p, q.inst, nullptr, nullptr, off, 0, 0);
			memset(B, 0, off);
		} else if (kind == 7 || kind == 8) {
			f(kind, st.p, 0, nullptr, nullptr, 0, 0, 0);
			for (auto &s : S)
				keccak_p(s, kind == 7 ? 12 : 24);
			permuted++;
		} else if (kind == 9) {
			Buf b(len, 0x31, al);
			f(9, st.p, q.inst, b.p, nullptr, off, len, 0);
			if (!same(o, "extracted bytes", b.p, B + off, len))
				return;
			if (!b.intact()) {
				o.bad("extraction wrote outside its buffer");
				return;
			}
		} else if (kind == 10 || kind == 12) {
			int lanes = q.a % 26, step = lanes + (q.b & 7);
			size_t n = 8 * (3 * step + lanes);
			Bytes d = filler(q.salt, n), want = Bytes(n, 0x31);
			Buf in(d, al), out(n, 0x31, (q.salt >> 6) & 63);
			bool place = kind == 12 && (q.salt >> 12 & 1); // input and output may be the same
			if (place)
				want = d;
			for (int i = 0; i < 4; i++)
				for (int j = 0; j < lanes; j++) {
					u64 v;
					memcpy(&v, &d[8 * (i * step + j)], 8);
					v = kind == 12 ? S[i][j] ^ v : S[i][j];
					memcpy(&want[8 * (i * step + j)], &v, 8);
				}
			if (kind == 10)
				f(10, st.p, 0, out.p, nullptr, lanes, step, 0);
			else
				f(12, st.p, 0, in.p, place ? in.p : out.p, lanes, step, 0);
			if (!same(o, "extracted lanes", place ? in.p : out.p, want.data(), n))
				return;
			if (!in.intact() || !out.intact()) {
				o.bad("extraction of lanes wrote outside its buffer");
				return;
			}
		} else if (kind == 11) {
			Bytes d = filler(q.salt, len), want = d;
			bool place = q.salt >> 12 & 1;
			Buf in(d, al), out(len, 0x31, (q.salt >> 6) & 63);
			for (int i = 0; i < len; i++)
				want[i] ^= B[off + i];
			f(11, st.p, q.inst, in.p, place ? in.p : out.p, off, len, 0);
			if (!same(o, "bytes extracted and added", place ? in.p : out.p, want.data(), len))
				return;
			if (!in.intact() || !out.intact()) {
				o.bad("extraction wrote outside its buffer");
				return;
			}
		} else if (kind >= 14) {
			int lanes = (q.salt & 4) ? 21 : 1 + q.a % 25, par = lanes + (q.b & 3);
			// the next blocks begin no further on than the loop requires to be left, as the package's own users do
			int ser = (q.salt & 2) ? 1 + (q.salt >> 2) % (3 * par + lanes) : (q.salt & 1) ? lanes : 3 * par + lanes;
			size_t n = (q.salt >> 8) % 6000;
			Bytes d = filler(q.salt, n);
			Buf in(d, al);
			u64 got = fast(kind == 15, st.p, lanes, par, ser, in.p, n), want = 0;
			for (size_t left = n; left >= 8u * (3 * par + lanes); left -= 8 * ser, want += 8 * ser) {
				for (int i = 0; i < 4; i++) {
					for (int j = 0; j < lanes; j++) {
						u64 v;
						memcpy(&v, &d[want + 8 * (i * par + j)], 8);
						S[i][j] ^= v;
					}
					keccak_p(S[i], kind == 15 ? 12 : 24);
				}
				permuted++;
			}
			if (got != want) {
				o.bad(strf("absorbing %zu bytes in blocks of %d lanes consumed %llu, expected %llu", n, lanes, (unsigned long long)got, (unsigned long long)want));
				return;
			}
		}
		o.cls(strf("op%d", kind));
	}
	for (int i = 0; i < 4; i++) {
		Buf b(200, 0);
		f(9, st.p, i, b.p, nullptr, 0, 200, 0);
		if (!same(o, strf("final state of instance %d", i).c_str(), b.p, (u8 *)S[i], 200))
			return;
	}
	if (!st.intact())
		o.bad("wrote outside the state");
	o.nontrivial = permuted > 0;
}
static void k1_run(const Case &k, Out &o, Target *t)
{
	Buf st(200, 0x9d);
	u64 S[25] = {0};
	u8 *B = (u8 *)S;
	int permuted = 0;
	if (!ucall(o, t, "KeccakF1600_StateInitialize", {W(st)}))
		return;
	for (auto &q : kops(k.b.at("ops"))) {
		int kind = q.kind % 8;
		int off = q.a % 201, len = std::min(q.b, 200 - off);
		size_t al = q.salt & 15;
		if (kind == 0 && (q.salt >> 6) % 4 == 0) {
			memset(S, 0, 200);
			if (!ucall(o, t, "KeccakF1600_StateInitialize", {W(st)}))
				return;
		} else if (kind == 1 && t->sym("KeccakF1600_StateComplementBit")) {
			unsigned bit = (q.salt >> 4) % 1600;
			S[bit / 64] ^= 1ull << (bit % 64);
			if (!ucall(o, t, "KeccakF1600_StateComplementBit", {W(st), V(bit)}))
				return;
		} else if (kind <= 4) {
			Bytes d = filler(q.salt, len);
			Buf b(d, al);
			if (!ucall(o, t, "KeccakF1600_StateXORBytes", {W(st), I(b), V(off), V(len)}))
				return;
			for (int i = 0; i < len; i++)
				B[off + i] ^= d[i];
		} else if (kind == 5) {
			if (!ucall(o, t, "KeccakF1600_StatePermute", {W(st)}))
				return;
			keccak_p(S, 24);
			permuted++;
		} else {
			Buf b(len, 0x31, al);
			Bytes before(st.p, st.p + 200);
			if (!ucall(o, t, "KeccakF1600_StateExtractBytes", {I(st), W(b), V(off), V(len)}))
				return;
			if (!same(o, strf("bytes %d to %d of the state", off, off + len).c_str(), b.p, B + off, len))
				return;
		}
		o.cls(strf("op%d", kind));
	}
	Buf b(200, 0);
	if (!ucall(o, t, "KeccakF1600_StateExtractBytes", {I(st), W(b), V(0), V(200)}))
		return;
	same(o, "final state", b.p, B, 200);
	o.nontrivial = permuted > 0;
}
static bool keccak_valid() // the plain permutation above against OpenSSL
{
	for (int n = 0; n < 136; n += 45) {
		Bytes d = filler(n + 1, n), h(32);
		u64 S[25] = {0};
		memcpy(S, d.data(), n);
		((u8 *)S)[n] ^= 6;
		((u8 *)S)[135] ^= 0x80;
		keccak_p(S, 24);
		model::sha3_256(h.data(), d.data(), n);
		if (memcmp(h.data(), S, 32))
			return false;
	}
	return true;
}
static Registrar r23("C23", [](Property &P) {
	if (!keccak_valid()) {
		fprintf(stderr, "the Keccak model disagrees with OpenSSL\n");
		exit(3);
	}
	P.assumptions = {"the interface is the one documented for SnP and PlSnP in the Keccak code package; the distance from one absorbed block to the next is at most the length that the loop requires to be left",
			 "the permutation of the model was validated against OpenSSL's SHA-3"};
	Check c;
	c.name = "four-way-state";
	c.rule = "a generated history of state operations on four interleaved states (bytes and lanes added, overwritten, zeroed, extracted, both permutations, the absorbing loops) against four plain states; at least one permutation";
	c.targets = having({"vf_k4", "vf_k4_fast", "vf_k4_size"});
	c.gen = [](Rng &r, Case &k, u64, Target *) { k.b["ops"] = kops_gen(r); };
	c.run = k4_run;
	c.count = N(60000, 2000000, 256);
	P.checks.push_back(c);
	c.name = "bit-interleaved-state";
	c.rule = "a generated history of operations on the bit-interleaved Cortex-M0 state (bytes added at any offset, bits complemented, bytes extracted, permutation) against a plain state; at least one permutation";
	c.targets = having({"KeccakF1600_StateInitialize", "KeccakF1600_StateXORBytes", "KeccakF1600_StateExtractBytes", "KeccakF1600_StatePermute"});
	c.run = k1_run;
	c.count = N(20000, 400000, 64);
	P.checks.push_back(c);
});
