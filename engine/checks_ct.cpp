// C14: neither control flow nor addresses depend on secrets.
#include "emu_targets.h"
#include "kem.h"
#include "taint.h"
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

// where a second execution first leaves the first one's path
static std::string where(EmuTarget *t, u32 pc)
{
	std::string best = "?";
	u32 at = 0;
	for (auto &s : t->m.sym)
		if ((s.second & 1) && (s.second & ~1u) <= pc && (s.second & ~1u) >= at) {
			at = s.second & ~1u;
			best = s.first;
		}
	return strf("%s+0x%x", best.c_str(), pc - at);
}
static OpResult op_run(Target *t, const Case &k, bool second)
{
	Bytes pk(t->pk, 0), sk(t->sk, 0), ct(t->ct, 0), ss(t->ss, 0);
	const char *sfx = second ? "2" : "";
	t->reset();
	switch (k.n.at("op")) {
	case 0: return t->keypair(pk.data(), sk.data(), k.b.at(std::string("rnd") + sfx));
	case 1: return t->enc(ct.data(), ss.data(), k.b.at("pk").data(), k.b.at(std::string("rnd") + sfx));
	default: return t->dec(ss.data(), k.b.at("ct").data(), k.b.at(std::string("sk") + sfx).data());
	}
}
static const char *OPS[] = {"key generation", "encapsulation", "decapsulation"};
// the same public inputs, other secrets
static Bytes other_secret(Rng &r, const Params &P, const Bytes &sk, std::string *cls)
{
	Bytes o = sk;
	Bytes h = honest_sk(r, P);
	switch (r.below(4)) {
	case 0: // another secret vector: the ciphertext becomes invalid
		std::copy(h.begin(), h.begin() + P.skcpa(), o.begin());
		*cls = "other secret vector";
		break;
	case 1: // another rejection secret
		std::copy(h.end() - 32, h.end(), o.end() - 32);
		*cls = "other rejection secret";
		break;
	case 2:
		std::copy(h.begin(), h.begin() + P.skcpa(), o.begin());
		std::copy(h.end() - 32, h.end(), o.end() - 32);
		*cls = "both";
		break;
	default: { // extreme coefficients
		std::vector<u16> s = gen_small(r, P.L * 256, P.MU / 2);
		model::pack(o.data(), s.data(), s.size(), P.EQ);
		*cls = "extreme secret vector";
	}
	}
	return o;
}
static void gen_common(Rng &r, Case &k, u64 i, Target *t, bool two)
{
	k.n["op"] = i % 4 == 0 ? 0 : i % 4 == 1 ? 1 : 2;
	switch (k.n["op"]) {
	case 0:
		k.b["rnd"] = gen_rnd(r, 3 * t->lanes);
		if (two)
			k.b["rnd2"] = gen_rnd(r, 3 * t->lanes);
		break;
	case 1: {
		Bytes pk;
		for (int l = 0; l < t->lanes; l++)
			append(pk, gen_pk(r, t->P));
		k.b["pk"] = pk;
		k.b["rnd"] = gen_rnd(r, t->lanes);
		if (two)
			k.b["rnd2"] = gen_rnd(r, t->lanes);
		break;
	}
	default: {
		Bytes a, b, ct;
		for (int l = 0; l < t->lanes; l++) {
			Bytes sk = honest_sk(r, t->P);
			Bytes c(t->P.ct()), s(32), m = gen_bytes(r, 32);
			if ((i >> 2) % 3 == 2) // rejected in both
				c = gen_ct(r, t->P, sk);
			else
				model::enc(t->P, c.data(), s.data(), sk.data() + t->P.skcpa(), m.data());
			std::string cls;
			Bytes o = other_secret(r, t->P, sk, &cls);
			if (!two && (i >> 2) % 3 == 1)
				sk = o;
			append(a, sk_to_target(*t, sk));
			append(b, sk_to_target(*t, o));
			append(ct, c);
		}
		k.b["ct"] = ct;
		k.b["sk"] = a;
		if (two)
			k.b["sk2"] = b;
	}
	}
}
static void trace_run(const Case &k, Out &o, Target *t)
{
	EmuTarget *e = emu(t);
	if (M0Target *z = m0(t))
		if (!z->broken.empty()) {
			o.bad("start-up: " + z->broken);
			return;
		}
	OpResult a = op_run(t, k, false), b = op_run(t, k, true);
	const char *op = OPS[k.n.at("op")];
	if (!ok(o, op, a) || !ok(o, op, b))
		return;
	o.nontrivial = true;
	o.cls(op);
	if (a.trace == b.trace && a.steps == b.steps)
		return;
	// find the place
	std::vector<u64> l1, l2;
	e->m.log = &l1;
	op_run(t, k, false);
	e->m.log = &l2;
	op_run(t, k, true);
	e->m.log = nullptr;
	size_t n = 0;
	while (n < l1.size() && n < l2.size() && l1[n] == l2[n])
		n++;
	std::string w = "?";
	if (n < l1.size() && n < l2.size()) {
		bool data = l1[n] >> 32 || l2[n] >> 32;
		size_t j = n;
		while (j > 0 && (l1[j - 1] >> 32))
			j--;
		u32 pc = j ? (u32)l1[j - 1] : 0;
		if (l1[n] >> 34 || l2[n] >> 34)
			w = strf("a division after %s has operands of secret size", where(e, pc).c_str());
		else
			w = data ? strf("the instruction in %s accesses address 0x%08x or 0x%08x", where(e, pc).c_str(), (u32)l1[n], (u32)l2[n])
			 : strf("after %s control goes to %s or %s", where(e, pc).c_str(), where(e, (u32)l1[n]).c_str(), where(e, (u32)l2[n]).c_str());
	}
	o.bad(strf("%s: execution depends on the secret: %llu and %llu instructions; %s", op, (unsigned long long)a.steps, (unsigned long long)b.steps, w.c_str()));
}
static void flow_run(const Case &k, Out &o, Target *t)
{
	EmuTarget *e = emu(t);
	if (M0Target *z = m0(t))
		if (!z->broken.empty()) {
			o.bad("start-up: " + z->broken);
			return;
		}
	Taint f(e->m);
	e->m.taint = &f;
	e->secret_sk.assign(t->sk, 0);
	std::fill(e->secret_sk.begin(), e->secret_sk.end() - 64 - t->pk, 0xff);
	std::fill(e->secret_sk.end() - 32, e->secret_sk.end(), 0xff);
	OpResult r = op_run(t, k, false);
	e->m.taint = nullptr;
	e->secret_sk.clear();
	const char *op = OPS[k.n.at("op")];
	if (!ok(o, op, r))
		return;
	o.nontrivial = r.marked;
	o.cls(strf("%s, %s", op, r.marked ? "results derive from the secret" : "no secret in the results"));
	if (f.events)
		o.bad(strf("%s: %s, in %s (%llu such events)", op, f.first.c_str(), where(e, f.first_pc).c_str(), (unsigned long long)f.events));
}
static void put(std::string &s, u32 v) { s.append((char *)&v, 4); }
static void put(std::string &s, const Bytes &b, size_t n)
{
	Bytes x = b;
	x.resize(n);
	put(s, (u32)n);
	s.append((char *)x.data(), n);
}
static void taint_run(const Case &k, Out &o, Target *t)
{
	const char *drv = getenv("VF_CTDRIVER");
	if (!drv) {
		o.bad("internal: no driver");
		return;
	}
	std::string dir = strf("%s.tmp/%d", drv, (int)getpid());
	std::string in = dir + ".in", out = dir + ".out", log = dir + ".log";
	std::string s;
	u32 op = k.n.at("op");
	auto b = [&](const char *n) { return k.b.count(n) ? k.b.at(n) : Bytes(); };
	put(s, op);
	put(s, (u32)t->ss);
	put(s, b("rnd"), b("rnd").size());
	put(s, b("pk"), t->pk);
	put(s, b("ct"), t->ct);
	put(s, b("sk"), t->sk);
	put(s, 2 * t->lanes);
	size_t ls = t->sk / t->lanes;
	for (int l = 0; l < t->lanes; l++) {
		put(s, l * ls);
		put(s, (u32)t->P.skcpa());
		put(s, (l + 1) * ls - 32);
		put(s, 32);
	}
	std::ofstream(in, std::ios::binary) << s;
	unlink(out.c_str());
	pid_t p = fork();
	if (p == 0) {
		std::string lf = "--log-file=" + log;
		unsetenv("LD_PRELOAD");
		execlp("valgrind", "valgrind", "-q", "--tool=memcheck", "--error-limit=no", "--undef-value-errors=yes", "--partial-loads-ok=yes", "--vex-guest-max-insns=20",
		       "--expensive-definedness-checks=yes", "--leak-check=no", "--num-callers=6", lf.c_str(), drv, t->path.c_str(), in.c_str(), out.c_str(), (char *)0);
		_exit(127);
	}
	int st = 0;
	waitpid(p, &st, 0);
	unsigned errs = 0, marked = 0, on = 0;
	std::ifstream f(out);
	bool got = (bool)(f >> errs >> marked >> on);
	std::stringstream lg;
	lg << std::ifstream(log).rdbuf();
	unlink(in.c_str());
	unlink(out.c_str());
	unlink(log.c_str());
	if (!got || !on) {
		// a limit of the monitor, or a crash (property C11 looks for those): nothing decided here
		o.cls(strf("%s did not complete under valgrind", OPS[op]));
		fprintf(stderr, "%s: %s under valgrind did not complete (status %x): %s\n", t->id.c_str(), OPS[op], st, lg.str().substr(0, 400).c_str());
		return;
	}
	if (errs) {
		// the first report, without the process number
		std::string l, txt;
		int lines = 0;
		while (std::getline(lg, l) && lines < 5) {
			size_t c = l.find("== ");
			c = l.find("== ", 2);
			l = c == std::string::npos ? l : l.substr(c + 3);
			if (!l.empty() && l != " ") {
				txt += " | " + l;
				lines++;
			}
		}
		o.bad(strf("%s: %u branches or addresses depend on secret data%s", OPS[op], errs, txt.c_str()));
		return;
	}
	o.nontrivial = marked > 0;
	o.cls(strf("%s, %s", OPS[op], marked ? "results carry the mark" : "no mark in the results"));
}
static Registrar r14("C14", [](Property &P) {
	P.assumptions = {"host builds: valgrind's definedness tracking follows secret data (secret inputs are marked undefined); vector code compiled for Haswell, which valgrind can run",
			 "Cortex-M builds: instruction and address traces of the instruction-set model; predicated instructions that access no memory count as constant time; the Cortex-M4 hash functions belong to pqm4 and are outside"};
	Check c;
	c.name = "trace";
	c.rule = "one operation executed twice with the same public inputs and different secrets (other secret vector, rejection secret, random bytes; accepted against rejected): equal instruction counts, branch decisions addresses and sizes of dividends and divisors";
	c.targets = [] { return all_targets([](Target &t) { return t.kind == "m4" || t.kind == "m0"; }); };
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) { gen_common(r, k, i, t, true); };
	c.run = trace_run;
	c.count = [](Target *t) { return std::pair<u64, u64>(t->kind == "m0" ? (g_thorough ? 400 : 24) : (g_thorough ? 2000 : 80), 2); };
	P.checks.push_back(c);
	c.name = "flow";
	c.rule = "one operation while every register, flag and memory bit that derives from the random bytes or the secret parts of the secret key is followed: no branch, address or division operand derives from them, while the results do";
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) { gen_common(r, k, i, t, false); };
	c.run = flow_run;
	c.count = [](Target *t) { return std::pair<u64, u64>(t->kind == "m0" ? (g_thorough ? 200 : 12) : (g_thorough ? 1000 : 32), 2); };
	P.checks.push_back(c);
	c.name = "taint";
	c.rule = "one operation with its random bytes or the secret parts of the secret key marked undefined: no branch, address or division operand depends on them, while the results do";
	c.targets = [] { return all_targets([](Target &t) { return t.kind == "host"; }); };
	c.gen = [](Rng &r, Case &k, u64 i, Target *t) { gen_common(r, k, i, t, false); };
	c.run = taint_run;
	c.count = [](Target *t) { return std::pair<u64, u64>(g_thorough ? 120 : 8, 1); };
	c.no_shrink = true;
	P.checks.push_back(c);
});
