// C11: operations touch only the buffers they are given.  C12: no dependence on history.
#include "kem.h"
#include "emu.h"
#include <algorithm>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// A buffer between two inaccessible pages; the slack around it carries a pattern.
struct Guarded {
	u8 *map, *data, *p;
	size_t maplen, datalen, n;
	u8 pat;
	Guarded(size_t n, int mode, size_t off, u8 pat) : n(n), pat(pat)
	{
		const size_t pg = 4096;
		datalen = ((n + 128 + pg - 1) / pg) * pg;
		maplen = datalen + 2 * pg;
		map = (u8 *)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (map == MAP_FAILED)
			_exit(4);
		data = map + pg;
		mprotect(map, pg, PROT_NONE);
		mprotect(data + datalen, pg, PROT_NONE);
		memset(data, pat, datalen);
		switch (mode & 3) {
		case 0: p = data + datalen - n; break;		       // ends at the inaccessible page
		case 1: p = data; break;			       // starts at it
		case 2: p = data + (off & 63); break;		       // any alignment, start side
		default: p = data + datalen - n - (off & 63); break; // any alignment, end side
		}
	}
	~Guarded() { munmap(map, maplen); }
	Guarded(const Guarded &) = delete;
	void fill(const Bytes &b) { memcpy(p, b.data(), n); }
	void readonly() { mprotect(data, datalen, PROT_READ); }
	bool intact() const
	{
		for (u8 *q = data; q < p; q++)
			if (*q != pat)
				return false;
		for (u8 *q = p + n; q < data + datalen; q++)
			if (*q != pat)
				return false;
		return true;
	}
	Bytes get() const { return Bytes(p, p + n); }
};
static __attribute__((noinline)) void poison_stack(u8 v)
{
	volatile u8 a[200 * 1024];
	memset((void *)a, v, sizeof a);
	asm volatile("" ::"r"(a) : "memory");
}
static OpResult do_op(Target *t, int op, u8 *o1, u8 *o2, const u8 *i1, const u8 *i2, const Bytes &rnd)
{
	switch (op) {
	case 0: return t->keypair(o1, o2, rnd);
	case 1: return t->enc(o1, o2, i1, rnd);
	default: return t->dec(o1, i1, i2);
	}
}
static const char *op_name[] = {"key generation", "encapsulation", "decapsulation"};

static void gen_op(Rng &r, Target *t, int op, Bytes &i1, Bytes &i2, Bytes &rnd)
{
	i1.clear();
	i2.clear();
	rnd.clear();
	for (int l = 0; l < t->lanes; l++)
		switch (op) {
		case 0: append(rnd, gen_rnd(r, 3)); break;
		case 1:
			append(rnd, gen_rnd(r, 1));
			append(i1, gen_pk(r, t->P));
			break;
		default: {
			Bytes s = gen_target_sk(r, *t, nullptr);
			append(i1, gen_ct(r, t->P, sk_to_model(*t, s.data())));
			append(i2, s);
		}
		}
}
static void c11_gen(Rng &r, Case &k, u64 i, Target *t)
{
	int op = i % 3;
	k.n["op"] = op;
	gen_op(r, t, op, k.b["in1"], k.b["in2"], k.b["rnd"]);
	for (int j = 0; j < 4; j++) {
		k.n[strf("mode%d", j)] = r.below(4);
		k.n[strf("off%d", j)] = r.chance(1, 2) ? r.below(64) : (i / 3) % 64;
	}
	k.n["pat"] = r.byte();
	k.n["stack"] = r.byte();
}
static void c11_run(const Case &k, Out &o, Target *t)
{
	int op = k.n.at("op") % 3;
	const Bytes &a = k.b.at("in1"), &b = k.b.at("in2"), &rnd = k.b.at("rnd");
	size_t n1 = op == 0 ? t->pk : op == 1 ? t->ct : t->ss, n2 = op == 0 ? t->sk : op == 1 ? t->ss : 0;
	// conventional buffers, exactly sized heap blocks
	Bytes r1(n1, 0), r2(n2, 0);
	if (!ok(o, op_name[op], do_op(t, op, r1.data(), r2.data(), a.data(), b.data(), rnd)))
		return;
	for (int round = 0; round < 2; round++) {
		u8 pat = k.n.at("pat") + round * 0x5d;
		Guarded i1(a.size(), k.n.at("mode0"), k.n.at("off0"), pat), i2(b.size(), k.n.at("mode1"), k.n.at("off1"), pat);
		Guarded o1(n1, k.n.at("mode2"), k.n.at("off2"), ~pat), o2(n2, k.n.at("mode3"), k.n.at("off3"), ~pat);
		if (!t->emulated()) {
			i1.fill(a);
			i2.fill(b);
			i1.readonly();
			i2.readonly();
			poison_stack(k.n.at("stack") + round);
		} else {
			i1.fill(a);
			i2.fill(b);
		}
		if (t->emulated()) { // the same alignments, within sixteen bytes, on the target
			auto w = [&](const char *n) { return (u32)(k.n.at(n) + round * 7) & 15; };
			emu(t)->skew = op == 0 ? w("off2") | w("off3") << 4 : op == 1 ? w("off2") | w("off3") << 4 | w("off0") << 8 : w("off2") | w("off0") << 4 | w("off1") << 8;
			emu(t)->repoison(pat);
		}
		OpResult res = do_op(t, op, o1.p, o2.p, i1.p, i2.p, rnd);
		if (t->emulated())
			emu(t)->skew = 0;
		if (!ok(o, op_name[op], res))
			return;
		std::string d = diff(strf("first output of %s in guarded buffers at offset %zu", op_name[op], (size_t)o1.p & 63).c_str(), o1.p, r1.data(), n1);
		if (d.empty() && n2)
			d = diff(strf("second output of %s in guarded buffers", op_name[op]).c_str(), o2.p, r2.data(), n2);
		if (!d.empty()) {
			o.bad(d + " (against the same call with ordinary buffers)");
			return;
		}
		if (!o1.intact() || !o2.intact() || !i1.intact() || !i2.intact()) {
			o.bad(strf("%s wrote outside its output buffers", op_name[op]));
			return;
		}
		if ((a.size() && memcmp(i1.p, a.data(), a.size())) || (b.size() && memcmp(i2.p, b.data(), b.size()))) {
			o.bad(strf("%s modified its input", op_name[op]));
			return;
		}
	}
	o.nontrivial = true;
	o.cls(op_name[op]);
}
static Registrar r11("C11", [](Property &P) {
	P.assumptions = {"accesses inside the process's other mapped memory are seen by AddressSanitizer (builds marked +asan), accesses across the buffers' ends by inaccessible pages",
			 "on the emulated targets every access is checked against the memory map and the buffers given"};
	Check c;
	c.name = "buffers";
	c.rule = "operation on generated input with every buffer between inaccessible pages (flush with either end, or at a generated offset 0..63), inputs write-protected, outputs and stack pre-filled; results equal those with ordinary buffers, surroundings unchanged";
	c.targets = [] { return all_targets(nullptr); };
	c.gen = c11_gen;
	c.run = c11_run;
	c.count = [](Target *t) {
		if (t->kind == "m4")
			return std::pair<u64, u64>(g_thorough ? 3000 : 60, 3);
		if (t->kind == "m0")
			return std::pair<u64, u64>(g_thorough ? 600 : 24, 1);
		if (t->id.find("+asan") != std::string::npos)
			return std::pair<u64, u64>(g_thorough ? 20000 : 1500, 24);
		return std::pair<u64, u64>(g_thorough ? 100000 : 6000, 48);
	};
	P.checks.push_back(c);
});
// ---------------------------------------------------------------- C12
static const size_t RES = 48 * 1024;
struct Step {
	int op;
	Bytes i1, i2, rnd;
	u8 prefill, stack;
	bool reuse; // inputs passed at the addresses earlier calls used
};
// one byte of one field changed, mostly at a field's edge
static void near_miss(Rng &r, Bytes &b, const std::vector<size_t> &edges)
{
	size_t i = r.below(b.size());
	if (r.chance(3, 4)) {
		size_t e = edges[r.below(edges.size())] % (b.size() + 1);
		i = e + (r.chance(1, 2) ? 0 : -1);
		if (i >= b.size())
			i = b.size() - 1;
	}
	b[i] ^= r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255);
}
// the history is a function of the case: a pool of keys, ciphertexts and randomness used repeatedly
static std::vector<Step> history(const Case &k, Target *t)
{
	Rng r(k.n.at("pool"));
	struct Slot {
		Bytes rnd, pk, sk, ct[3], rnde;
	};
	std::vector<Slot> pool;
	for (int i = 0; i < 3; i++) {
		Slot s;
		for (int l = 0; l < t->lanes; l++) {
			Bytes rn = gen_rnd(r, 3), pk(t->P.pk()), sk(t->P.sk());
			model::keypair(t->P, pk.data(), sk.data(), rn.data());
			append(s.rnd, rn);
			append(s.pk, i == 2 ? gen_pk(r, t->P) : pk);
			Bytes tsk = sk_to_target(*t, sk);
			append(s.sk, tsk);
			Bytes e = gen_rnd(r, 1), ct(t->P.ct()), ss(32);
			append(s.rnde, e);
			model::enc(t->P, ct.data(), ss.data(), pk.data(), e.data());
			append(s.ct[0], ct);
			Bytes bad = ct;
			bad[r.below(bad.size())] ^= 1 << r.below(8);
			append(s.ct[1], bad);
			append(s.ct[2], gen_ct(r, t->P, sk));
		}
		pool.push_back(s);
	}
	std::vector<Step> v;
	const Params &P = t->P;
	const Bytes &near = k.b.at("near");
	size_t lsk = lane_sk(*t), cpa = lsk - P.pk() - 64;
	for (u8 x : k.b.at("ops")) {
		Slot &s = pool[x % 3];
		Step st;
		st.op = (x / 3) % 3;
		int var = (x / 9) % 3;
		if (st.op == 0)
			st.rnd = s.rnd;
		else if (st.op == 1) {
			st.rnd = pool[var].rnde;
			st.i1 = s.pk;
		} else {
			st.i1 = (x / 27) % 4 == 0 ? pool[(x + 1) % 3].ct[0] : s.ct[var];
			st.i2 = s.sk;
		}
		u8 y = near[v.size() % near.size()];
		if ((y & 15) < 5) { // differs from what other steps are given in one place only
			Rng nr(k.n.at("pool") ^ (u64)y << 32 ^ x << 8);
			if (st.op == 0)
				near_miss(nr, st.rnd, {0, 31, 32, 63, 64, 95, st.rnd.size()});
			else if (st.op == 1) {
				if (y & 16)
					near_miss(nr, st.rnd, {0, st.rnd.size()});
				else
					near_miss(nr, st.i1, {0, P.pk() - 32, P.pk(), 320, 640});
			} else if (y & 16)
				near_miss(nr, st.i1, {0, P.ct(), (size_t)P.L * 320, 320});
			else
				near_miss(nr, st.i2, {0, cpa, lsk, lsk - 32, lsk - 64, lsk - 96, P.polyq()});
		}
		st.reuse = y & 32;
		st.prefill = x * 31 + v.size();
		st.stack = x * 17 + v.size() * 3;
		v.push_back(st);
	}
	return v;
}
static bool run_step(Target *t, const Step &s, u8 *res, Bytes *why)
{
	size_t n1 = s.op == 0 ? t->pk : s.op == 1 ? t->ct : t->ss, n2 = s.op == 0 ? t->sk : s.op == 1 ? t->ss : 0;
	Bytes a(n1, s.prefill), b(n2, ~s.prefill);
	if (!t->emulated())
		poison_stack(s.stack);
	const u8 *p1 = s.i1.data(), *p2 = s.i2.data();
	static std::vector<u8> keep[2];
	if (s.reuse) {
		for (auto &x : keep)
			x.resize(RES);
		memcpy(keep[0].data(), s.i1.data(), s.i1.size());
		memcpy(keep[1].data(), s.i2.data(), s.i2.size());
		p1 = keep[0].data();
		p2 = keep[1].data();
	}
	OpResult r = do_op(t, s.op, a.data(), b.data(), p1, p2, s.rnd);
	u64 head[4] = {(u64)(int64_t)r.rc, r.draws.size(), 0, (u64)!r.fault.empty()};
	for (auto d : r.draws)
		head[2] += d;
	memcpy(res, head, 32);
	memcpy(res + 32, a.data(), n1);
	memcpy(res + 32 + n1, b.data(), n2);
	if (why)
		*why = Bytes(r.fault.begin(), r.fault.end());
	return true;
}
static bool in_child(std::function<void()> f, std::string *why)
{
	pid_t p = fork();
	if (!p) {
		f();
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return true;
	*why = WIFSIGNALED(st) ? strf("crashed with signal %d", WTERMSIG(st)) : strf("ended the process with status %d", WEXITSTATUS(st));
	return false;
}
static void c12_run(const Case &k, Out &o, Target *t)
{
	auto steps = history(k, t);
	if (steps.empty())
		return;
	std::string why;
	size_t total = RES * (steps.size() + 1);
	u8 *sh = (u8 *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	u8 *one = sh + RES * steps.size();
	std::set<u64> distinct;
	if (t->emulated()) {
		t->reset();
		for (size_t i = 0; i < steps.size(); i++)
			run_step(t, steps[i], sh + RES * i, nullptr);
	} else if (!in_child([&] {
			   for (size_t i = 0; i < steps.size(); i++)
				   run_step(t, steps[i], sh + RES * i, nullptr);
		   },
			     &why))
		o.bad("the history " + why);
	std::map<u64, int> firsts; // equal calls need one fresh run only
	for (size_t i = 0; i < steps.size() && o.fail.empty(); i++) {
		Step s = steps[i];
		u64 h = s.op + 1;
		h = hash64(s.i1.data(), s.i1.size(), h);
		h = hash64(s.i2.data(), s.i2.size(), h);
		h = hash64(s.rnd.data(), s.rnd.size(), h);
		distinct.insert(h);
		size_t n1 = s.op == 0 ? t->pk : s.op == 1 ? t->ct : t->ss, n2 = s.op == 0 ? t->sk : s.op == 1 ? t->ss : 0;
		u8 *ref = one;
		if (firsts.count(h))
			ref = sh + RES * firsts[h];
		else {
			firsts[h] = i;
			memset(one, 0, RES);
			s.prefill = 0;
			s.stack = 0;
			if (t->emulated()) {
				t->reset();
				run_step(t, s, one, nullptr);
			} else if (!in_child([&] { run_step(t, s, one, nullptr); }, &why)) {
				o.bad(std::string(op_name[s.op]) + " in a fresh process " + why);
				break;
			}
		}
		std::string d = diff(strf("%s at step %zu of %zu, against the same call in a fresh process: result record", op_name[s.op], i, steps.size()).c_str(),
				     sh + RES * i, ref, 32 + n1 + n2);
		if (!d.empty())
			o.bad(d);
		if (s.op == 2) {
			u64 nd;
			memcpy(&nd, sh + RES * i + 8, 8);
			if (nd)
				o.bad("decapsulation drew random bytes");
		}
	}
	munmap(sh, total);
	o.nontrivial = distinct.size() > 1 && steps.size() > 2;
	o.cls(strf("length-%zu", steps.size() / 4 * 4));
}
// one process, very many calls: the calls come from a small pool, so each result has a reference from a fresh process
static void c12_long_run(const Case &k, Out &o, Target *t)
{
	Case pk = k;
	Rng r(k.n.at("pool") * 3 + 1);
	pk.b["ops"] = uniform_bytes(r, 12);
	for (size_t i = 0; i < 12; i++) // every operation, and valid, altered and arbitrary ciphertexts
		pk.b["ops"][i] = i % 3 + 3 * (i / 3 < 2 ? i / 3 : 2) + 9 * (i < 9 ? i % 3 : i / 3 % 3) + (i < 9 ? 27 : 0);
	pk.b["near"] = Bytes(1, 15);
	std::vector<Step> pool = history(pk, t);
	std::string why;
	size_t len = pool.size();
	std::vector<Bytes> want;
	u8 *sh = (u8 *)mmap(nullptr, RES + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto size_of = [&](const Step &s) { return 32 + (s.op == 0 ? t->pk + t->sk : s.op == 1 ? t->ct + t->ss : t->ss); };
	for (size_t i = 0; i < len && o.fail.empty(); i++) {
		Step s = pool[i];
		s.reuse = false;
		memset(sh, 0, RES);
		if (t->emulated()) {
			t->reset();
			run_step(t, s, sh, nullptr);
		} else if (!in_child([&] { run_step(t, s, sh, nullptr); }, &why))
			o.bad(std::string(op_name[s.op]) + " in a fresh process " + why);
		want.push_back(Bytes(sh, sh + size_of(s)));
	}
	u64 n = k.n.at("steps"), span = k.n.at("span"), *at = (u64 *)(sh + RES);
	auto all = [&] {
		Rng q(k.n.at("order"));
		std::vector<u8> got(RES);
		int mode = 0, pick = 0;
		u64 left = 0;
		for (u64 i = 0; i < n; i++) {
			if (!left) { // phases: one call over and over, one operation only, or anything
				mode = q.below(3);
				pick = q.below(pool.size());
				left = 1 + q.below(1 + (span >> (3 + q.below(8))));
			}
			left--;
			int j = mode == 0 ? pick : q.below(pool.size());
			if (mode == 1)
				while (pool[j].op != pool[pick].op)
					j = q.below(pool.size());
			at[0] = i;
			at[1] = j;
			run_step(t, pool[j], got.data(), nullptr);
			if (memcmp(got.data(), want[j].data(), want[j].size())) {
				at[2] = 1;
				return;
			}
		}
	};
	at[0] = at[1] = at[2] = 0;
	if (o.fail.empty()) {
		bool ended = true;
		if (t->emulated()) {
			t->reset();
			all();
		} else
			ended = in_child(all, &why);
		if (!ended || at[2]) {
			o.bad(strf("%s at call %llu of a long history %s", op_name[pool[at[1]].op], (unsigned long long)at[0] + 1,
				   ended ? "gives a result that differs from the same call in a fresh process" : why.c_str()));
			Case shorter = k;
			shorter.n["steps"] = at[0] + 1;
			o.instead = std::make_shared<Case>(shorter);
		}
	}
	munmap(sh, RES + 64);
	o.nontrivial = n > 40;
	int lg = 0;
	while (n >> (lg + 1))
		lg++;
	o.cls(strf("calls-2^%d", lg));
}
static Registrar r12("C12", [](Property &P) {
	P.assumptions = {"a forked child that has made no call stands for a fresh process; on emulated targets, a reset memory image"};
	Check c;
	c.name = "histories";
	c.rule = "a generated sequence over a small pool of keys, ciphertexts (valid, flipped, arbitrary) and randomness, with repeats, near-repeats that differ in one byte (mostly at the edge of a field), interleaving, reused input addresses and varied buffer and stack contents; every step compared with the same call made first; at least three steps, two of them different";
	c.targets = [] { return all_targets(nullptr); };
	c.gen = [](Rng &r, Case &k, u64, Target *t) {
		k.n["pool"] = r.below(1u << 30);
		size_t n = t->kind == "m0" ? r.range(3, 6) : t->emulated() ? r.range(3, 10) : r.range(3, 40);
		Bytes ops = uniform_bytes(r, n);
		for (size_t i = 1; i < n; i++)
			if (r.chance(1, 5))
				ops[i] = ops[r.below(i)]; // repeats
		k.b["ops"] = ops;
		Bytes near = uniform_bytes(r, n);
		for (size_t i = 1; i < n; i++)
			if (r.chance(1, 3)) { // the previous call once more with one place changed, or repeated exactly
				ops[i] = ops[i - 1];
				near[i] = r.chance(1, 3) ? near[i - 1] : (near[i] & 0xf0) | r.below(8);
			}
		k.b["ops"] = ops;
		k.b["near"] = near;
	};
	c.run = c12_run;
	c.count = [](Target *t) {
		if (t->kind == "m4")
			return std::pair<u64, u64>(g_thorough ? 400 : 16, 1);
		if (t->kind == "m0")
			return std::pair<u64, u64>(g_thorough ? 60 : 3, 1);
		return std::pair<u64, u64>(g_thorough ? 6000 : 200, 4);
	};
	P.checks.push_back(c);
	c = Check();
	c.name = "long";
	c.rule = "thousands of calls in one process in generated phases (one call over and over, one operation only, or anything) from a pool of twelve; each result compared with the same call in a fresh process; more than 40 calls";
	c.targets = [] { return all_targets([](Target &t) { return t.id.find("+asan") == std::string::npos; }); };
	c.gen = [](Rng &r, Case &k, u64, Target *t) {
		k.n["pool"] = r.below(1u << 30);
		k.n["order"] = r.below(1u << 30);
		u64 base = t->kind == "m0" ? 40 : t->emulated() ? 150 : 6000;
		k.n["span"] = k.n["steps"] = base * (g_thorough ? 8 : 1) + r.below(base / 2);
	};
	c.run = c12_long_run;
	c.no_shrink = true;
	c.cpu_limit = 600;
	c.count = [](Target *t) { return std::pair<u64, u64>(g_thorough && t->kind == "host" ? 4 : 1, 1); };
	P.checks.push_back(c);
});
