// Comparison-guided search on top of an ordinary check: comparisons made by the code under test are
// logged, those whose operands depend on the input are singled out, and inputs are changed until each
// of them has come out every way (operand values found in the input are replaced by the other operand,
// the distance between operands is minimised). Every input tried is judged by the ordinary check.
#include "guided.h"
#include <algorithm>
#include <ctime>

CmpLog *g_cmplog;
void CmpLog::add(u64 pc, u64 a, u64 b, unsigned size)
{
	CmpSite &s = sites[pc];
	s.n++;
	u64 x[2] = {a, b};
	s.hash = hash64(x, 16, s.hash + 1);
	s.rel |= a == b ? 2 : a < b ? 1 : 4;
	u64 d = a < b ? b - a : a - b;
	if (d < s.best)
		s.best = d;
	if (s.n <= 4096) {
		if (s.ev.size() < 48)
			s.ev.push_back({a, b, (u8)size});
		else if (d == s.best)
			s.ev[s.n % 48] = {a, b, (u8)size};
	}
}
void CmpLog::mem(u64 pc, const void *a, const void *b, size_t n)
{
	CmpSite &s = sites[pc];
	s.n++;
	s.hash = hash64(a, n, hash64(b, n, s.hash + 1));
	u64 d = 0;
	for (size_t i = 0; i < n; i++)
		d += ((const u8 *)a)[i] != ((const u8 *)b)[i];
	s.rel |= d ? 4 : 2;
	s.best = std::min(s.best, d);
	if (s.blocks.size() < 8 && n <= 4096)
		s.blocks.push_back({Bytes((const u8 *)a, (const u8 *)a + n), Bytes((const u8 *)b, (const u8 *)b + n)});
}
static void cb(u64 pc, u64 a, u64 b, unsigned n)
{
	if (g_cmplog)
		g_cmplog->add(pc, a, b, n);
}
static void mb(u64 pc, const void *a, const void *b, size_t n)
{
	if (g_cmplog)
		g_cmplog->mem(pc, a, b, n);
}
typedef void (*set_t)(void (*)(u64, u64, u64, unsigned), void (*)(u64, const void *, const void *, size_t));

namespace {
struct Search {
	const Check &base;
	Target *t;
	Rng r;
	Out &o;
	u64 runs = 0;
	std::map<u64, unsigned> rel; // outcomes seen per site
	bool judge(Case &k, CmpLog &log)
	{
		if (base.guide_fix)
			base.guide_fix(k, t);
		set_t f = t->emulated() ? nullptr : (set_t)t->sym("vf_set_cmp");
		log.sites.clear();
		g_cmplog = &log;
		if (f)
			f(cb, mb);
		Out x;
		base.run(k, x, t);
		g_cmplog = nullptr;
		if (f)
			f(nullptr, nullptr);
		runs++;
		if (x.nontrivial)
			o.nontrivial = true;
		if (!x.fail.empty()) {
			o.fail = x.fail;
			o.instead = std::make_shared<Case>(k);
			return false;
		}
		return true;
	}
	static bool fields(const Case &k, const std::string &n) { return k.b.count(n) != 0; }
	// writes v over a place that holds old; false when there is none
	bool replace(Case &k, u64 old, u64 v, unsigned size)
	{
		struct Hit {
			std::string name;
			size_t pos;
			int kind, w;
		};
		std::vector<Hit> hits;
		for (auto &name : base.guide) {
			auto it = k.b.find(name);
			if (it == k.b.end())
				continue;
			const Bytes &b = it->second;
			for (unsigned sz = 1; sz <= 8; sz *= 2) {
				if (sz > size || (sz < 8 && old >> (8 * sz) && (int64_t)old >> (8 * sz - 1) != -1))
					continue;
				for (size_t i = 0; i + sz <= b.size(); i++) {
					bool le = true, be = true;
					for (unsigned j = 0; j < sz; j++) {
						le &= b[i + j] == (u8)(old >> (8 * j));
						be &= b[i + j] == (u8)(old >> (8 * (sz - 1 - j)));
					}
					if (le)
						hits.push_back({name, i, 0, (int)sz});
					else if (be)
						hits.push_back({name, i, 1, (int)sz});
				}
			}
			for (int w : {1, 3, 4, 6, 10, 12, 13}) {
				if (old >> w && ~old >> (w - 1) && r.below(2))
					continue;
				u64 m = (1u << w) - 1;
				for (size_t i = 0; (i + 1) * w <= b.size() * 8; i++) {
					size_t bit = i * w;
					u64 x = 0;
					for (size_t j = 0; j < 3 && bit / 8 + j < b.size(); j++)
						x |= (u64)b[bit / 8 + j] << (8 * j);
					if ((x >> bit % 8 & m) == (old & m))
						hits.push_back({name, bit, 2, w});
				}
			}
		}
		if (hits.empty())
			return false;
		// rare patterns first: a match of many bits is more likely to be the operand itself
		int best = 0;
		for (auto &h : hits)
			best = std::max(best, h.kind < 2 ? h.w * 8 : h.w);
		if (r.below(3) == 0) {
			std::vector<Hit> good;
			for (auto &h : hits)
				if ((h.kind < 2 ? h.w * 8 : h.w) == best)
					good.push_back(h);
			hits = good;
		}
		bool all = r.below(8) == 0;
		size_t one = r.below(hits.size());
		for (size_t q = 0; q < hits.size(); q++) {
			if (!all && q != one)
				continue;
			const Hit &h = hits[q];
			Bytes &b = k.b[h.name];
			if (h.kind < 2)
				for (int j = 0; j < h.w; j++)
					b[h.pos + j] = (u8)(v >> (8 * (h.kind ? h.w - 1 - j : j)));
			else
				for (int j = 0; j < h.w; j++) {
					size_t bit = h.pos + j;
					b[bit / 8] = (u8)((b[bit / 8] & ~(1 << bit % 8)) | (v >> j & 1) << bit % 8);
				}
		}
		return true;
	}
	void mutate(Case &k)
	{
		std::vector<std::string> names;
		for (auto &n : base.guide)
			if (k.b.count(n) && !k.b[n].empty())
				names.push_back(n);
		if (names.empty())
			return;
		Bytes &b = k.b[names[r.below(names.size())]];
		switch (r.below(9)) {
		case 0: case 1: case 2:
			for (int i = r.range(1, 3); i > 0; i--)
				b[r.below(b.size())] ^= 1 << r.below(8);
			break;
		case 3:
			b[r.below(b.size())] = r.byte();
			break;
		case 4:
			b[r.below(b.size())] += (u8)r.range(-4, 4);
			break;
		case 5: { // a run
			size_t i = r.below(b.size()), n = 1 + r.below(std::min<size_t>(b.size() - i, 64));
			Bytes x = gen_bytes(r, n);
			std::copy(x.begin(), x.end(), b.begin() + i);
			break;
		}
		case 6: { // a copy from elsewhere
			Bytes &c = k.b[names[r.below(names.size())]];
			size_t n = std::min(b.size(), c.size());
			n = r.below(2) ? 1 + r.below(n) : std::min<size_t>(n, 32);
			size_t i = r.below(b.size() - n + 1), j = r.below(c.size() - n + 1);
			Bytes x(c.begin() + j, c.begin() + j + n);
			std::copy(x.begin(), x.end(), b.begin() + i);
			break;
		}
		case 7: // everything from here on
			std::fill(b.begin() + r.below(b.size()), b.end(), r.below(2) ? 0 : 0xff);
			break;
		case 8:
			b = gen_bytes(r, b.size());
			break;
		}
	}
	bool place(Case &k, const Bytes &from, const Bytes &to)
	{
		for (auto &name : base.guide) {
			auto it = k.b.find(name);
			if (it == k.b.end())
				continue;
			Bytes &b = it->second;
			auto p = std::search(b.begin(), b.end(), from.begin(), from.end());
			if (p != b.end()) {
				std::copy(to.begin(), to.end(), p);
				return true;
			}
		}
		return false;
	}
	void go(Case k0, Case k1, u64 budget)
	{
		CmpLog l0, l1;
		if (!judge(k0, l0) || !judge(k1, l1))
			return;
		std::set<u64> open; // sites that depend on the input
		auto fold = [&](CmpLog &l) {
			for (auto &s : l.sites)
				rel[s.first] |= s.second.rel;
		};
		fold(l0);
		fold(l1);
		for (auto &s : l0.sites) {
			if (!s.second.ev.empty() && s.second.ev[0].a >> 40 && s.second.ev[0].b >> 40 && s.second.ev[0].a >> 28 == s.second.ev[0].b >> 28)
				continue; // addresses
			auto it = l1.sites.find(s.first);
			if (it == l1.sites.end() || it->second.hash != s.second.hash || it->second.n != s.second.n)
				open.insert(s.first);
		}
		for (auto &s : l1.sites)
			if (!l0.sites.count(s.first))
				open.insert(s.first);
		std::map<u64, unsigned> tries;
		const unsigned enough = t->emulated() ? 20 : 100;
		auto done = [&](u64 s) { return rel[s] == 7 || ((rel[s] & 2) && (rel[s] & 5) && tries[s] >= enough); };
		o.cls(open.empty() ? "no input-dependent comparison" : "input-dependent comparisons");
		if (getenv("VF_GUIDE"))
			for (u64 x : open)
				fprintf(stderr, "%s site %llx n %llu/%llu rel %u ev %llx %llx\n", t->id.c_str(), (unsigned long long)x, (unsigned long long)l0.sites[x].n, (unsigned long long)l1.sites[x].n, rel[x], l0.sites[x].ev.empty() ? 0ull : (unsigned long long)l0.sites[x].ev[0].a, l0.sites[x].ev.empty() ? 0ull : (unsigned long long)l0.sites[x].ev[0].b);
		struct Seed {
			Case k;
			u64 best;
		};
		std::map<u64, Seed> seed; // closest input so far per site
		auto note = [&](const Case &k, CmpLog &l) {
			for (u64 s : open) {
				auto it = l.sites.find(s);
				if (it == l.sites.end())
					continue;
				auto q = seed.find(s);
				if (q == seed.end() || it->second.best <= q->second.best)
					seed[s] = {k, it->second.best};
			}
		};
		note(k0, l0);
		note(k1, l1);
		u64 idle = 0;
		while (runs < budget) {
			std::vector<u64> want;
			for (u64 s : open)
				if (!done(s))
					want.push_back(s);
			if (want.empty())
				break;
			u64 s = want[r.below(want.size())];
			Case k = seed[s].k;
			CmpLog l;
			tries[s]++;
			if (r.below(2)) {
				mutate(k);
			} else {
				CmpLog cur;
				Case kk = k;
				if (!judge(kk, cur))
					return;
				auto it = cur.sites.find(s);
				if (it == cur.sites.end())
					continue;
				CmpSite &cs = it->second;
				bool ch = false;
				if (!cs.blocks.empty()) {
					auto &bl = cs.blocks[r.below(cs.blocks.size())];
					ch = r.below(2) ? place(k, bl.first, bl.second) : place(k, bl.second, bl.first);
				} else if (!cs.ev.empty()) {
					const CmpEv &e = cs.ev[r.below(cs.ev.size())];
					bool sw = r.below(4) == 0;
					u64 a = sw ? e.b : e.a, b = sw ? e.a : e.b;
					ch = replace(k, a, b + (r.below(4) ? 0 : r.range(-1, 1)), e.size);
				}
				if (!ch)
					mutate(k);
			}
			if (!judge(k, l))
				return;
			bool fresh = false;
			for (auto &x : l.sites) {
				unsigned &q = rel[x.first];
				if (!q && !open.count(x.first)) { // code not reached before
					open.insert(x.first);
					fresh = true;
				}
				if (x.second.rel & ~q)
					fresh = fresh || open.count(x.first);
				q |= x.second.rel;
			}
			note(k, l);
			idle = fresh ? 0 : idle + 1;
			if (idle > budget / 2)
				break;
		}
	}
};
}
void add_guided(Property &P, const Check &base0, std::function<std::pair<u64, u64>(Target *)> count)
{
	auto base = std::make_shared<Check>(base0);
	Check c;
	c.name = base->name + "-guided";
	c.rule = "the cases of '" + base->name + "' run with every comparison logged; where operands depend on the input, inputs are changed until the comparison has come out both equal and unequal, and all of them judged as in '" + base->name + "'";
	c.targets = [base] {
		std::vector<std::string> v;
		auto all = base->targets();
		std::set<std::string> fits(all.begin(), all.end());
		for (auto &t : g_targets)
			if (t->traced ? fits.count(t->id.substr(0, t->id.size() - 4)) : t->emulated() && fits.count(t->id))
				v.push_back(t->id);
		return v;
	};
	c.gen = [base](Rng &r, Case &k, u64 i, Target *t) {
		base->gen(r, k, i, t);
		k.n["guide"] = r.next() >> 2;
	};
	c.run = [base](const Case &k, Out &o, Target *t) {
		Search s{*base, t, Rng(k.n.at("guide")), o};
		Case a = k, b;
		a.check = b.check = base->name;
		b.target = k.target;
		a.n.erase("guide");
		base->gen(s.r, b, 0, t);
		b.n = a.n; // same lengths and modes: only the contents differ
		for (auto &x : a.b) {
			bool free = std::count(base->guide.begin(), base->guide.end(), x.first);
			if (!free)
				b.b[x.first] = x.second;
			else if (b.b[x.first].size() != x.second.size())
				b.b[x.first] = uniform_bytes(s.r, x.second.size());
		}
		s.go(a, b, t->emulated() ? (g_thorough ? 400 : 60) : (g_thorough ? 8000 : 1000));
	};
	c.count = count;
	c.no_shrink = true;
	c.cpu_limit = 120;
	P.checks.push_back(c);
}
std::pair<u64, u64> guided_count(Target *t)
{
	if (t && t->emulated())
		return {g_thorough ? 40 : t->kind == "m0" ? 4 : 2, 1};
	return {g_thorough ? 300 : 6, 1};
}
