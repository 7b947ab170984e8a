// C01..C05, C16, C17: the KEM against the independent model and against itself.
#include "guided.h"
#include "kem.h"
#include <algorithm>

static std::pair<u64, u64> host_or(Target *t, u64 hq, u64 ht, u64 mq, u64 mt, u64 zq, u64 zt)
{
	if (!t)
		return {g_thorough ? ht : hq, 16};
	if (t->kind == "m4")
		return {g_thorough ? mt : mq, 2};
	if (t->kind == "m0")
		return {g_thorough ? zt : zq, 1};
	u64 n = g_thorough ? ht : hq;
	return {t->lanes > 1 ? n / 2 : n, 32};
}
static bool eq(Out &o, const char *what, const Bytes &got, const Bytes &want)
{
	std::string d = diff(what, got.data(), want.data(), want.size());
	return d.empty() ? true : o.bad(d);
}
static bool sizes_ok(Out &o, Target &T)
{
	for (const char *h : {"vf_api_sizes", "vf_apiorig_sizes"})
		if (const long *z = T.emulated() ? nullptr : (const long *)T.sym(h))
			if ((size_t)z[0] != T.mpk() || (size_t)z[1] != T.msk() || (size_t)z[2] != T.mct() || (size_t)z[3] != T.mss())
				return o.bad(strf("sizes pk=%ld sk=%ld ct=%ld ss=%ld of the public header differ from the specification", z[0], z[1], z[2], z[3]));
	if (T.pk != T.mpk() || T.sk != T.msk() || T.ct != T.mct() || T.ss != T.mss())
		return o.bad(strf("declared sizes pk=%zu sk=%zu ct=%zu ss=%zu differ from the specification", T.pk, T.sk, T.ct, T.ss));
	return true;
}
// ---------------------------------------------------------------- C01
static void c01_gen(Rng &r, Case &k, u64, Target *t)
{
	k.b["rnd_key"] = gen_rnd(r, 3 * t->lanes);
	k.b["rnd_enc"] = gen_rnd(r, t->lanes);
}
static void c01_run(const Case &k, Out &o, Target *t)
{
	if (!sizes_ok(o, *t))
		return;
	Bytes pk(t->pk), sk(t->sk), ct(t->ct), a(t->ss), b(t->ss, 0x5a);
	if (!ok(o, "key generation", t->keypair(pk.data(), sk.data(), k.b.at("rnd_key"))))
		return;
	if (!ok(o, "encapsulation", t->enc(ct.data(), a.data(), pk.data(), k.b.at("rnd_enc"))))
		return;
	if (!ok(o, "decapsulation", t->dec(b.data(), ct.data(), sk.data())))
		return;
	o.nontrivial = true;
	eq(o, "decapsulated secret", b, a);
}
static Registrar r01("C01", [](Property &P) {
	P.assumptions = {"32-byte random draws are chosen by the harness (randombytes replaced, or the board's generator register modelled)",
			 "Cortex-M code runs on an instruction-set simulator written for this work",
			 "the scheme's own decryption failure probability (below 2^-120) never shows"};
	Check c;
	c.name = "roundtrip";
	c.rule = "keygen, encaps and decaps all ran on generated randomness and the two secrets were compared; cases are distinct random draws (uniform or structured per 32-byte draw)";
	c.targets = [] { return all_targets(nullptr); };
	c.gen = c01_gen;
	c.run = c01_run;
	c.count = [](Target *t) { return host_or(t, 12000, 300000, 120, 3000, 20, 400); };
	P.checks.push_back(c);
	c.guide = {"rnd_key", "rnd_enc"};
	add_guided(P, c, guided_count);
});
// ---------------------------------------------------------------- C02
static void c02_run(const Case &k, Out &o, Target *t)
{
	if (!sizes_ok(o, *t))
		return;
	Bytes pk(t->pk), sk(t->sk, 0xa5), epk, esk;
	OpResult r = t->keypair(pk.data(), sk.data(), k.b.at("rnd_key"));
	if (!ok(o, "key generation", r))
		return;
	o.nontrivial = true;
	expect_keypair(*t, k.b.at("rnd_key"), epk, esk);
	if (!eq(o, "public key", pk, epk) || !eq(o, "secret key", sk, esk))
		return;
	if (!draws_are(*t, r, 3))
		o.bad("key generation did not draw exactly three 32-byte strings");
}
static Registrar r02("C02", [](Property &P) {
	P.assumptions = {"OpenSSL's SHA-2, SHA-3, SHAKE and AES are correct; the schoolbook model was validated against the repository's KAT files (setup self-test)"};
	Check c;
	c.name = "keygen";
	c.rule = "key pair compared byte for byte with the model for generated randomness";
	c.targets = [] { return all_targets(nullptr); };
	c.gen = [](Rng &r, Case &k, u64, Target *t) { k.b["rnd_key"] = gen_rnd(r, 3 * t->lanes); };
	c.run = c02_run;
	c.count = [](Target *t) { return host_or(t, 12000, 300000, 150, 4000, 24, 600); };
	P.checks.push_back(c);
	c.guide = {"rnd_key"};
	add_guided(P, c, guided_count);
});
// ---------------------------------------------------------------- C03
static void c03_gen(Rng &r, Case &k, u64, Target *t)
{
	Bytes pk;
	for (int l = 0; l < t->lanes; l++)
		append(pk, gen_pk(r, t->P));
	relate_parts(r, pk, t->lanes);
	k.b["pk"] = pk;
	k.b["rnd_enc"] = gen_rnd(r, t->lanes);
}
static void c03_run(const Case &k, Out &o, Target *t)
{
	if (!sizes_ok(o, *t))
		return;
	Bytes ct(t->ct), ss(t->ss, 0xa5), ect, ess;
	const Bytes &pk = k.b.at("pk");
	OpResult r = t->enc(ct.data(), ss.data(), pk.data(), k.b.at("rnd_enc"));
	if (!ok(o, "encapsulation", r))
		return;
	o.nontrivial = true;
	expect_enc(*t, pk, k.b.at("rnd_enc"), ect, ess);
	if (!eq(o, "ciphertext", ct, ect) || !eq(o, "shared secret", ss, ess))
		return;
	if (!draws_are(*t, r, 1))
		o.bad("encapsulation did not draw exactly one 32-byte string");
}
static Registrar r03("C03", [](Property &P) {
	P.assumptions = {"OpenSSL's SHA-2, SHA-3, SHAKE and AES are correct; the schoolbook model was validated against the repository's KAT files (setup self-test)"};
	Check c;
	c.name = "encaps";
	c.rule = "ciphertext and secret compared byte for byte with the model, for honest, mutated, random, structured and extreme-coefficient public keys";
	c.targets = [] { return all_targets(nullptr); };
	c.gen = c03_gen;
	c.run = c03_run;
	c.count = [](Target *t) { return host_or(t, 12000, 300000, 150, 4000, 24, 600); };
	P.checks.push_back(c);
	c.guide = {"pk", "rnd_enc"};
	add_guided(P, c, guided_count);
});
// ---------------------------------------------------------------- C04
static void c04_run(const Case &k, Out &o, Target *t)
{
	if (!sizes_ok(o, *t))
		return;
	Bytes ss(t->ss, 0xa5), ess;
	const Bytes &ct = k.b.at("ct"), &sk = k.b.at("sk");
	OpResult r = t->dec(ss.data(), ct.data(), sk.data());
	if (!ok(o, "decapsulation", r))
		return;
	int acc;
	expect_dec(*t, ct, sk, ess, &acc);
	o.cls(std::string(k.n.count("boundary") ? "boundary-" : "") + (acc == t->lanes ? "accepted" : acc ? "mixed" : "rejected"));
	o.nontrivial = true;
	eq(o, "decapsulated secret", ss, ess);
}
// exhaustive over the ciphertext bits of an honest ciphertext: case index = bit
static void c04_flip_gen(Rng &r, Case &k, u64 index, Target *t)
{
	const Params &P = t->P;
	Rng kr(hash_str(t->id, 99) + index / 977); // one key for neighbouring indices
	Bytes ct, sk;
	for (int l = 0; l < t->lanes; l++) {
		Bytes s = honest_sk(kr, P), c(P.ct()), ss(32), rnd = uniform_bytes(kr, 32);
		model::enc(P, c.data(), ss.data(), s.data() + P.skcpa(), rnd.data());
		append(sk, sk_to_target(*t, s));
		append(ct, c);
	}
	u64 bit = index;
	if (t->emulated())
		bit = r.next();
	bit %= ct.size() * 8;
	ct[bit / 8] ^= 1 << (bit % 8);
	k.b["ct"] = ct;
	k.b["sk"] = sk;
}
// lanes with the same or nearly the same ciphertext, key, or both
static void relate_lanes(Rng &r, Bytes &ct, Bytes &sk, size_t lanes)
{
	if (lanes < 2)
		return;
	if (r.chance(1, 6)) {
		size_t from = r.below(lanes), to = r.below(lanes), n = ct.size() / lanes, m = sk.size() / lanes;
		memmove(&ct[to * n], &ct[from * n], n);
		memmove(&sk[to * m], &sk[from * m], m);
	}
	relate_parts(r, ct, lanes);
	relate_parts(r, sk, lanes);
}
static void c04_gen(Rng &r, Case &k, u64, Target *t)
{
	Bytes ct, sk;
	for (int l = 0; l < t->lanes; l++) {
		if (r.chance(1, 16)) {
			Bytes s, c;
			gen_boundary(r, t->P, s, c);
			append(ct, c);
			append(sk, sk_to_target(*t, s));
			k.n["boundary"] = 1;
			continue;
		}
		Bytes s = gen_target_sk(r, *t, nullptr);
		append(ct, gen_ct(r, t->P, sk_to_model(*t, s.data())));
		append(sk, s);
	}
	relate_lanes(r, ct, sk, t->lanes);
	k.b["ct"] = ct;
	k.b["sk"] = sk;
}
static void add_c04(Property &P, bool m4only)
{
	Check c;
	c.name = "decaps";
	c.rule = "secret compared with the model for generated (ciphertext, secret key) pairs: honest keys, mutated, random, extreme coefficients; valid ciphertexts, single and paired changes, replaced tails, other coins, arbitrary bytes; one in sixteen: a public key shifted until the decision on some coefficient is within one step of flipping";
	c.targets = [m4only] { return all_targets([m4only](Target &t) { return !m4only || t.kind == "m4"; }); };
	c.gen = c04_gen;
	c.run = c04_run;
	c.count = [m4only](Target *t) { return m4only ? std::pair<u64, u64>(g_thorough ? 6000 : 220, 2) : host_or(t, 12000, 300000, 100, 3000, 16, 500); };
	P.checks.push_back(c);
	c.guide = {"ct", "sk"};
	add_guided(P, c, guided_count);
	c.guide.clear();
	c.name = "bitflip";
	c.rule = "every single-bit change of an honest ciphertext (bit = case index; sampled on the emulated targets), key changed every 977 cases";
	c.gen = c04_flip_gen;
	c.count = [m4only](Target *t) {
		if (t->kind == "host")
			return std::pair<u64, u64>((u64)t->mct() * 8 * (g_thorough ? 8 : 1), 64);
		return t->kind == "m0" ? std::pair<u64, u64>(g_thorough ? 300 : 8, 1) : std::pair<u64, u64>((g_thorough ? 2000 : 40) * (m4only ? 2 : 1), 2);
	};
	P.checks.push_back(c);
}
static Registrar r04("C04", [](Property &P) {
	P.assumptions = {"OpenSSL's SHA-2, SHA-3, SHAKE and AES are correct; the schoolbook model was validated against the repository's KAT files (setup self-test)"};
	add_c04(P, false);
});
// ---------------------------------------------------------------- C05
static std::vector<std::string> groups()
{
	std::map<std::string, int> n;
	for (auto &t : g_targets)
		n[t->P.name()]++;
	std::vector<std::string> v;
	for (auto &x : n)
		if (x.second > 1)
			v.push_back("group:" + x.first);
	return v;
}
static std::vector<TargetP> members(const std::string &g)
{
	std::vector<TargetP> v;
	for (auto &t : g_targets)
		if ("group:" + t->P.name() == g)
			v.push_back(t);
	return v;
}
// run one single-lane operation on a target; X4 targets carry it in lane `lane`, the rest is filler
struct Single {
	TargetP t;
	int lane;
	u64 filler;
	Bytes spread(const Bytes &x) const
	{
		if (t->lanes == 1)
			return x;
		Rng r(filler + x.size());
		Bytes o;
		for (int l = 0; l < t->lanes; l++)
			append(o, l == lane ? x : uniform_bytes(r, x.size()));
		return o;
	}
	Bytes pick(const Bytes &x) const
	{
		size_t n = x.size() / t->lanes;
		return slice(x, n * (t->lanes == 1 ? 0 : lane), n);
	}
	bool keypair(Out &o, const Bytes &rnd, Bytes &pk, Bytes &sk) const
	{
		Bytes p(t->pk), s(t->sk);
		if (!ok(o, (t->id + " key generation").c_str(), t->keypair(p.data(), s.data(), spread(rnd))))
			return false;
		pk = pick(p);
		s = pick(s);
		sk = sk_to_model(*t, s.data());
		return true;
	}
	bool enc(Out &o, const Bytes &pk, const Bytes &rnd, Bytes &ct, Bytes &ss) const
	{
		Bytes c(t->ct), s(t->ss), p = spread(pk);
		if (!ok(o, (t->id + " encapsulation").c_str(), t->enc(c.data(), s.data(), p.data(), spread(rnd))))
			return false;
		ct = pick(c);
		ss = pick(s);
		return true;
	}
	bool dec(Out &o, const Bytes &ct, const Bytes &sk, Bytes &ss) const
	{
		Bytes s(t->ss), c = spread(ct), k = spread(sk_to_target(*t, sk));
		if (!ok(o, (t->id + " decapsulation").c_str(), t->dec(s.data(), c.data(), k.data())))
			return false;
		ss = pick(s);
		return true;
	}
};
static std::vector<Single> singles(const Case &k, bool emu)
{
	std::vector<Single> v;
	for (auto &t : members(k.target))
		if (emu || !t->emulated())
			v.push_back({t, (int)(k.n.at("lane") & 3), (u64)k.n.at("filler")});
	return v;
}
static void c05_triple_run(const Case &k, Out &o, Target *)
{
	auto m = members(k.target);
	auto S = [&](const char *n) { return Single{m[k.n.at(n) % m.size()], (int)(k.n.at("lane") & 3), (u64)k.n.at("filler")}; };
	Single a = S("keygen_by"), b = S("encaps_by"), c = S("decaps_by");
	Bytes pk, sk, ct, s1, s2;
	if (!a.keypair(o, k.b.at("rnd_key"), pk, sk) || !b.enc(o, pk, k.b.at("rnd_enc"), ct, s1) || !c.dec(o, ct, sk, s2))
		return;
	o.nontrivial = a.t != b.t || b.t != c.t;
	std::string w = strf("secret from %s for a key of %s and ciphertext of %s", c.t->id.c_str(), a.t->id.c_str(), b.t->id.c_str());
	eq(o, w.c_str(), s2, s1);
}
static void c05_diff_run(const Case &k, Out &o, Target *)
{
	auto v = singles(k, k.n.at("emulated"));
	Bytes pk0, sk0, ct0, se0, sd0, pk, sk, ct, se, sd;
	for (size_t i = 0; i < v.size(); i++) {
		const Single &x = v[i];
		if (!x.keypair(o, k.b.at("rnd_key"), pk, sk) || !x.enc(o, k.b.at("pk"), k.b.at("rnd_enc"), ct, se))
			return;
		Bytes usesk = k.n.at("own_key") ? sk : k.b.at("sk");
		if (!x.dec(o, k.b.at("ct"), usesk, sd))
			return;
		if (i == 0) {
			pk0 = pk, sk0 = sk, ct0 = ct, se0 = se, sd0 = sd;
			continue;
		}
		std::string n = " of " + x.t->id + " against " + v[0].t->id;
		if (!eq(o, ("public key" + n).c_str(), pk, pk0) || !eq(o, ("secret key" + n).c_str(), sk, sk0) ||
		    !eq(o, ("ciphertext" + n).c_str(), ct, ct0) || !eq(o, ("encapsulated secret" + n).c_str(), se, se0) ||
		    !eq(o, ("decapsulated secret" + n).c_str(), sd, sd0))
			return;
	}
	o.nontrivial = v.size() > 1;
	o.cls(k.n.at("emulated") ? "with-emulated" : "host-only");
}
static Params group_params(const std::string &g) { return members(g)[0]->P; }
static Registrar r05("C05", [](Property &P) {
	P.assumptions = {"for the compressed Cortex-M4 secret-key format, keys are translated by the documented 4-bit coding"};
	Check c;
	c.name = "triples";
	c.rule = "key generation, encapsulation and decapsulation by three implementations of one parameter set, not all the same";
	c.targets = groups;
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		auto m = members(k.target);
		auto pick = [&]() {
			size_t i = r.below(m.size());
			if (m[i]->emulated() && r.chance(m[i]->kind == "m0" ? 12 : 3, 16))
				i = r.below(m.size());
			return (int64_t)i;
		};
		k.n["keygen_by"] = pick();
		k.n["encaps_by"] = pick();
		k.n["decaps_by"] = pick();
		k.n["lane"] = r.below(4);
		k.n["filler"] = r.below(1000);
		k.b["rnd_key"] = gen_rnd(r, 3);
		k.b["rnd_enc"] = gen_rnd(r, 1);
	};
	c.run = c05_triple_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 60000 : 2400, 4); };
	P.checks.push_back(c);
	c.name = "differential";
	c.rule = "the same randomness, public key, ciphertext and secret key given to every implementation of one parameter set; all outputs compared";
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		Params P = group_params(k.target);
		k.n["lane"] = r.below(4);
		k.n["filler"] = r.below(1000);
		k.n["emulated"] = i % 24 == 3;
		k.b["rnd_key"] = gen_rnd(r, 3);
		k.b["rnd_enc"] = gen_rnd(r, 1);
		k.b["pk"] = gen_pk(r, P);
		Bytes sk;
		bool emu = k.n["emulated"];
		k.n["own_key"] = r.chance(1, 2);
		if (k.n["own_key"]) {
			Bytes pk(P.pk());
			sk.resize(P.sk());
			model::keypair(P, pk.data(), sk.data(), k.b["rnd_key"].data());
		} else {
			// keys whose coefficients all implementations can store
			sk = emu ? honest_sk(r, P) : gen_sk(r, P);
		}
		k.b["ct"] = gen_ct(r, P, sk);
		if (r.chance(1, 12)) {
			gen_boundary(r, P, sk, k.b["ct"]);
			k.n["own_key"] = 0;
		}
		k.b["sk"] = sk;
	};
	c.run = c05_diff_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 60000 : 3000, 4); };
	P.checks.push_back(c);
});
// ---------------------------------------------------------------- C16
static bool is_x4(Target &t) { return t.lanes == 4; }
static void c16_run(const Case &k, Out &o, Target *t)
{
	if (!sizes_ok(o, *t))
		return;
	Bytes pk(t->pk), sk(t->sk), ct(t->ct), ss(t->ss), sd(t->ss), epk, esk, ect, ess, esd;
	OpResult r = t->keypair(pk.data(), sk.data(), k.b.at("rnd_key"));
	if (!ok(o, "key generation", r))
		return;
	if (!draws_are(*t, r, 3)) {
		o.bad("draws are not three per lane");
		return;
	}
	expect_keypair(*t, k.b.at("rnd_key"), epk, esk);
	auto lanes = [&](const char *w, const Bytes &a, const Bytes &b) {
		size_t n = b.size() / 4;
		for (int l = 0; l < 4; l++) {
			std::string d = diff(strf("lane %d %s", l, w).c_str(), a.data() + l * n, b.data() + l * n, n);
			if (!d.empty())
				return o.bad(d);
		}
		return true;
	};
	if (!lanes("public key", pk, epk) || !lanes("secret key", sk, esk))
		return;
	r = t->enc(ct.data(), ss.data(), k.b.at("pk").data(), k.b.at("rnd_enc"));
	if (!ok(o, "encapsulation", r))
		return;
	expect_enc(*t, k.b.at("pk"), k.b.at("rnd_enc"), ect, ess);
	if (!lanes("ciphertext", ct, ect) || !lanes("shared secret", ss, ess))
		return;
	r = t->dec(sd.data(), k.b.at("ct").data(), k.b.at("sk").data());
	if (!ok(o, "decapsulation", r))
		return;
	int acc;
	expect_dec(*t, k.b.at("ct"), k.b.at("sk"), esd, &acc);
	if (!lanes("decapsulated secret", sd, esd))
		return;
	o.cls(strf("accepted-lanes-%d", acc));
	// lanes do not influence one another: permute and replace
	int perm = k.n.at("perm") % 24, p[4] = {0, 1, 2, 3};
	for (int i = 0; i < perm; i++)
		std::next_permutation(p, p + 4);
	int keep = k.n.at("keep") & 3;
	Rng rr(k.n.at("other"));
	auto shuffle = [&](const Bytes &b, bool repl) {
		size_t n = b.size() / 4;
		Bytes x(b.size());
		for (int l = 0; l < 4; l++)
			memcpy(x.data() + l * n, b.data() + p[l] * n, n);
		if (repl)
			for (int l = 0; l < 4; l++)
				if (p[l] != keep) {
					Bytes u = gen_bytes(rr, n);
					memcpy(x.data() + l * n, u.data(), n);
				}
		return x;
	};
	bool repl = k.n.at("replace");
	Bytes pk2(t->pk), sk2(t->sk), ct2(t->ct), ss2(t->ss), sd2(t->ss);
	Bytes a = shuffle(k.b.at("pk"), repl), c = shuffle(k.b.at("ct"), repl), s = shuffle(k.b.at("sk"), repl);
	if (!ok(o, "key generation", t->keypair(pk2.data(), sk2.data(), shuffle(k.b.at("rnd_key"), repl))) ||
	    !ok(o, "encapsulation", t->enc(ct2.data(), ss2.data(), a.data(), shuffle(k.b.at("rnd_enc"), repl))) ||
	    !ok(o, "decapsulation", t->dec(sd2.data(), c.data(), s.data())))
		return;
	for (int l = 0; l < 4; l++)
		if (!repl || p[l] == keep) {
			auto same = [&](const char *w, const Bytes &x, const Bytes &y) {
				size_t n = x.size() / 4;
				std::string d = diff(strf("%s moved from lane %d to lane %d", w, p[l], l).c_str(), x.data() + l * n, y.data() + p[l] * n, n);
				return d.empty() ? true : o.bad(d);
			};
			if (!same("public key", pk2, pk) || !same("secret key", sk2, sk) || !same("ciphertext", ct2, ct) || !same("secret", ss2, ss) ||
			    !same("decapsulated secret", sd2, sd))
				return;
		}
	o.nontrivial = true;
}
static Registrar r16("C16", [](Property &P) {
	P.assumptions = {"the single Saber implementations conform to the same model (properties C02 to C04)"};
	Check c;
	c.name = "lanes";
	c.rule = "all three operations compared lane by lane with the model, then repeated with lanes permuted or three lanes replaced and compared for the lanes that stayed";
	c.targets = [] { return all_targets(is_x4); };
	c.gen = [](Rng &r, Case &k, u64, Target *t) {
		k.b["rnd_key"] = gen_rnd(r, 12);
		k.b["rnd_enc"] = gen_rnd(r, 4);
		Bytes pk, ct, sk;
		for (int l = 0; l < 4; l++) {
			append(pk, gen_pk(r, t->P));
			Bytes s = gen_sk(r, t->P), c = gen_ct(r, t->P, s);
			if (r.chance(1, 24))
				gen_boundary(r, t->P, s, c);
			append(ct, c);
			append(sk, s);
		}
		relate_parts(r, pk, t->lanes);
		relate_lanes(r, ct, sk, t->lanes);
		k.b["pk"] = pk;
		k.b["ct"] = ct;
		k.b["sk"] = sk;
		k.n["perm"] = r.below(24);
		k.n["keep"] = r.below(4);
		k.n["replace"] = r.below(2);
		k.n["other"] = r.below(1 << 20);
	};
	c.run = c16_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 400000 : 30000, 16); };
	P.checks.push_back(c);
	c.guide = {"rnd_key", "rnd_enc", "pk", "ct", "sk"};
	add_guided(P, c, guided_count);
	c.guide.clear();
	c.name = "one-lane-differs";
	c.rule = "three honest lanes and one whose ciphertext bit (case index) is flipped: that lane alone is rejected";
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) {
		c04_flip_gen(r, k, i, t);
		k.b["rnd_key"] = gen_rnd(r, 12);
	};
	c.run = c04_run;
	c.count = [](Target *t) { return std::pair<u64, u64>(t->mct() * 8, 64); };
	P.checks.push_back(c);
});
// ---------------------------------------------------------------- C17
static Registrar r17("C17", [](Property &P) {
	P.assumptions = {"instruction-set simulator for the subset of ARMv7E-M that the compiled code uses, written for this work; pqm4's hash and randomness interface supplied by the harness"};
	auto m4 = [] { return all_targets([](Target &t) { return t.kind == "m4"; }); };
	auto cnt = [](Target *) { return std::pair<u64, u64>(g_thorough ? 6000 : 220, 2); };
	Check c;
	c.targets = m4;
	c.count = cnt;
	c.name = "m4-keygen";
	c.rule = "key pair compared with the model, in the build's secret-key format";
	c.gen = [](Rng &r, Case &k, u64, Target *t) { k.b["rnd_key"] = gen_rnd(r, 3); };
	c.run = c02_run;
	P.checks.push_back(c);
	c.guide = {"rnd_key"};
	add_guided(P, c, guided_count);
	c.name = "m4-encaps";
	c.rule = "ciphertext and secret compared with the model for honest and adversarial public keys";
	c.gen = c03_gen;
	c.run = c03_run;
	P.checks.push_back(c);
	c.guide = {"pk", "rnd_enc"};
	add_guided(P, c, guided_count);
	add_c04(P, true);
	c.name = "m4-roundtrip";
	c.rule = "keygen, encaps, decaps agree";
	c.gen = c01_gen;
	c.run = c01_run;
	P.checks.push_back(c);
});
// ---------------------------------------------------------------- C18 (the KEM; the board is in checks_m0.cpp)
static Registrar r18("C18", [](Property &P) {
	auto cnt = [](Target *) { return std::pair<u64, u64>(g_thorough ? 3000 : 120, 2); };
	Check c;
	c.targets = [] { return all_targets([](Target &t) { return t.kind == "m0"; }); };
	c.count = cnt;
	c.name = "m0-keygen";
	c.rule = "key pair of the firmware's KEM compared with the model";
	c.gen = [](Rng &r, Case &k, u64, Target *t) { k.b["rnd_key"] = gen_rnd(r, 3); };
	c.run = c02_run;
	P.checks.push_back(c);
	c.guide = {"rnd_key"};
	add_guided(P, c, guided_count);
	c.name = "m0-encaps";
	c.rule = "ciphertext and secret compared with the model for honest and adversarial public keys";
	c.gen = c03_gen;
	c.run = c03_run;
	P.checks.push_back(c);
	c.guide = {"pk", "rnd_enc"};
	add_guided(P, c, guided_count);
	c.name = "m0-decaps";
	c.rule = "decapsulated secret compared with the model for honest and adversarial ciphertexts and secret keys";
	c.gen = c04_gen;
	c.run = c04_run;
	P.checks.push_back(c);
	c.guide = {"ct", "sk"};
	add_guided(P, c, guided_count);
	c.name = "m0-roundtrip";
	c.rule = "keygen, encaps, decaps agree";
	c.gen = c01_gen;
	c.run = c01_run;
	P.checks.push_back(c);
});
