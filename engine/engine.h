// Property-based testing engine: generated cases, forked workers, shrinking, replay.
#pragma once
#include "model.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Rng { // splitmix64-seeded xoshiro256**
	u64 s[4];
	explicit Rng(u64 seed);
	u64 next();
	u64 below(u64 n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((u64)(hi - lo + 1)); }
	bool chance(int num, int den) { return below(den) < (u64)num; }
	u8 byte() { return (u8)(next() >> 40); }
};
u64 hash64(const void *p, size_t n, u64 seed = 0x9e3779b97f4a7c15ull);
u64 hash_str(const std::string &s, u64 seed = 0x1234567);

// Structured byte strings: uniform, constant, sparse, single bits, low-entropy, periodic, runs.
Bytes gen_bytes(Rng &r, size_t n, const char **cls = nullptr);
Bytes uniform_bytes(Rng &r, size_t n);
// n coefficients of w bits, biased to the extremes of the range
std::vector<u16> gen_coeffs(Rng &r, size_t n, int w, const char **cls = nullptr);
// secret-like coefficients in [-h, h] as 16-bit two's complement
std::vector<u16> gen_small(Rng &r, size_t n, int h);
Bytes gen_packed(Rng &r, size_t n, int w);

struct Case {
	std::string check, target;
	std::map<std::string, Bytes> b;
	std::map<std::string, int64_t> n;
	std::string text() const;
	static bool parse(const std::string &text, Case &c);
	std::string brief() const;
};

struct Out {
	std::string fail; // empty: the property held on this case
	bool nontrivial = false;
	std::shared_ptr<struct Case> instead; // the case that failed, when the check tried several
	std::vector<std::string> classes;
	void cls(const std::string &c) { classes.push_back(c); }
	bool bad(const std::string &why)
	{
		if (fail.empty())
			fail = why;
		return false;
	}
};

struct OpResult {
	int rc = 0;
	std::vector<u64> draws;
	std::string fault;
	u64 trace = 0, steps = 0;
	bool marked = false; // results derive from secrets, when those are followed
};

struct Target {
	std::string id, kind, family, path;
	Params P;
	int lanes = 1;
	bool traced = false;	 // reports its comparisons: only for guided searches
	bool compressed = false; // M4: SABER_COMPRESS_SECRETKEY
	size_t pk = 0, sk = 0, ct = 0, ss = 0; // totals over the lanes, as the build declares them
	std::string broken;		       // reason why the target could not be loaded
	virtual ~Target() {}
	virtual OpResult keypair(u8 *pk, u8 *sk, const Bytes &rnd) = 0;
	virtual OpResult enc(u8 *ct, u8 *ss, const u8 *pk, const Bytes &rnd) = 0;
	virtual OpResult dec(u8 *ss, const u8 *ct, const u8 *sk) = 0;
	virtual void *sym(const char *) { return nullptr; }
	virtual void reset() {}
	bool emulated() const { return kind != "host"; }
	size_t mpk() const { return P.pk() * lanes; }
	size_t msk() const { return compressed ? (P.L * 128 + P.pk() + 64) * lanes : P.sk() * lanes; }
	size_t mct() const { return P.ct() * lanes; }
	size_t mss() const { return 32 * lanes; }
};
typedef std::shared_ptr<Target> TargetP;
extern std::vector<TargetP> g_targets;
TargetP find_target(const std::string &id);
TargetP make_host_target(const std::map<std::string, std::string> &kv);
TargetP make_m4_target(const std::map<std::string, std::string> &kv);
TargetP make_m0_target(const std::map<std::string, std::string> &kv);

struct RngFeed {
	const Bytes *src = nullptr;
	size_t pos = 0;
	std::vector<u64> draws;
	void fill(u8 *x, size_t n);
};

struct Check {
	std::string name;
	std::string rule; // when a case counts as non-trivial
	// targets and how many cases for each (quick, thorough)
	std::function<std::vector<std::string>()> targets;
	std::function<void(Rng &, Case &, u64 index, Target *)> gen;
	std::function<void(const Case &, Out &, Target *)> run;
	std::function<std::pair<u64, u64>(Target *)> count; // number of cases, cases per task
	std::vector<std::string> guide; // buffers a guided search may fill with anything
	std::function<void(Case &, Target *)> guide_fix; // brings a changed case back into the check's domain
	bool no_shrink = false;
	int cpu_limit = 60; // seconds of CPU time for one case
};
struct Property {
	std::string id;
	std::vector<Check> checks;
	std::vector<std::string> assumptions;
};
extern bool g_thorough;
extern double g_scale;
typedef std::function<void(Property &)> PropFn;
struct Registrar {
	Registrar(const char *id, PropFn f);
};
std::map<std::string, std::vector<PropFn>> &registry();
std::string hex(const u8 *p, size_t n, size_t max = 64);
std::string diff(const char *what, const u8 *got, const u8 *want, size_t n);
bool unhex(const std::string &s, Bytes &out);
std::vector<std::string> all_targets(std::function<bool(Target &)> f);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
