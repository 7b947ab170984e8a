#include "engine.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include "hostutil.h"

// ---------------------------------------------------------------- random source and generators
static u64 splitmix(u64 &x)
{
	u64 z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
Rng::Rng(u64 seed)
{
	for (auto &x : s)
		x = splitmix(seed);
}
u64 Rng::next()
{
	auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
	u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0];
	s[3] ^= s[1];
	s[1] ^= s[2];
	s[0] ^= s[3];
	s[2] ^= t;
	s[3] = rotl(s[3], 45);
	return r;
}
u64 hash64(const void *p, size_t n, u64 h)
{
	const u8 *c = (const u8 *)p;
	while (n >= 8) {
		u64 w;
		memcpy(&w, c, 8);
		h = (h ^ w) * 0xff51afd7ed558ccdull;
		h ^= h >> 32;
		c += 8;
		n -= 8;
	}
	for (size_t i = 0; i < n; i++) {
		h = (h ^ c[i]) * 0xff51afd7ed558ccdull;
		h ^= h >> 29;
	}
	return h ^ (h >> 31);
}
u64 hash_str(const std::string &s, u64 seed) { return hash64(s.data(), s.size(), seed); }

Bytes uniform_bytes(Rng &r, size_t n)
{
	Bytes v(n);
	for (size_t i = 0; i < n; i += 8) {
		u64 x = r.next();
		memcpy(v.data() + i, &x, n - i < 8 ? n - i : 8);
	}
	return v;
}
Bytes gen_bytes(Rng &r, size_t n, const char **cls)
{
	static const char *names[] = {"uniform", "constant", "sparse", "one-bit", "low-entropy", "periodic", "runs", "dense", "counter"};
	static const u8 special[] = {0x00, 0x01, 0x7f, 0x80, 0xff, 0xfe, 0x55, 0xaa};
	unsigned k = r.below(16);
	int m = k < 6 ? 0 : k < 8 ? 1 : k < 9 ? 2 : k < 10 ? 3 : k < 11 ? 4 : k < 12 ? 5 : k < 14 ? 6 : k < 15 ? 7 : 8;
	if (cls)
		*cls = names[m];
	Bytes v(n, 0);
	if (!n)
		return v;
	switch (m) {
	case 0:
		return uniform_bytes(r, n);
	case 1: {
		u8 c = r.chance(1, 3) ? r.byte() : special[r.below(8)];
		std::fill(v.begin(), v.end(), c);
		break;
	}
	case 2:
		for (int i = r.range(1, 6); i > 0; i--)
			v[r.below(n)] = r.chance(1, 2) ? r.byte() : special[r.below(8)];
		break;
	case 3:
		v[r.below(n)] = 1 << r.below(8);
		if (r.chance(1, 2))
			for (auto &x : v)
				x = ~x;
		break;
	case 4:
		for (auto &x : v)
			x = special[r.below(8)];
		break;
	case 5: {
		Bytes p = uniform_bytes(r, r.range(1, 16));
		for (size_t i = 0; i < n; i++)
			v[i] = p[i % p.size()];
		break;
	}
	case 6:
		for (size_t i = 0; i < n;) {
			size_t l = r.range(1, n > 64 ? n / 3 : n);
			int kind = r.below(4);
			for (; l && i < n; l--, i++)
				v[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? r.byte() : special[l % 8];
		}
		break;
	case 7:
		std::fill(v.begin(), v.end(), 0xff);
		for (int i = r.range(1, 6); i > 0; i--)
			v[r.below(n)] = r.byte();
		break;
	case 8: {
		u8 a = r.byte(), st = r.byte() | 1;
		for (auto &x : v)
			x = a, a += st;
		break;
	}
	}
	return v;
}
std::vector<u16> gen_coeffs(Rng &r, size_t n, int w, const char **cls)
{
	static const char *names[] = {"uniform", "extremes", "constant", "single", "near-max", "alternating", "blocks", "small-signed"};
	unsigned max = (1u << w) - 1, half = 1u << (w - 1);
	const unsigned ex[] = {0, 1, max, max - 1, half, half - 1, half + 1, max - 2};
	int m = r.below(8);
	if (cls)
		*cls = names[m];
	std::vector<u16> v(n, 0);
	unsigned a = ex[r.below(8)] & max, b = ex[r.below(8)] & max;
	switch (m) {
	case 0:
		for (auto &x : v)
			x = r.next() & max;
		break;
	case 1:
		for (auto &x : v)
			x = ex[r.below(8)] & max;
		break;
	case 2:
		for (auto &x : v)
			x = a;
		break;
	case 3:
		if (r.chance(1, 3))
			for (auto &x : v)
				x = b;
		for (int i = r.range(1, 3); i > 0; i--)
			v[r.below(n)] = r.chance(1, 2) ? a : r.next() & max;
		break;
	case 4:
		for (auto &x : v)
			x = max - r.below(4) % (max + 1);
		break;
	case 5: {
		size_t period = 1 + r.below(8);
		for (size_t i = 0; i < n; i++)
			v[i] = (i / period) & 1 ? a : b;
		break;
	}
	case 6: {
		size_t bl = size_t(16) << r.below(4);
		for (size_t i = 0; i < n; i += bl) {
			int kind = r.below(3);
			unsigned c = ex[r.below(8)] & max;
			for (size_t j = i; j < i + bl && j < n; j++)
				v[j] = kind == 0 ? 0 : kind == 1 ? c : r.next() & max;
		}
		break;
	}
	case 7:
		for (auto &x : v)
			x = (u16)(r.range(-5, 5)) & max;
		break;
	}
	return v;
}
std::vector<u16> gen_small(Rng &r, size_t n, int h)
{
	std::vector<u16> v(n);
	int m = r.below(5);
	for (size_t i = 0; i < n; i++)
		v[i] = m < 2 ? (u16)r.range(-h, h) : m == 2 ? (u16)(r.chance(1, 2) ? h : -h) : m == 3 ? (u16)(r.chance(1, 16) ? r.range(-h, h) : 0) : (u16)-h;
	return v;
}
Bytes gen_packed(Rng &r, size_t n, int w)
{
	auto c = gen_coeffs(r, n, w);
	Bytes o((n * w + 7) / 8);
	model::pack(o.data(), c.data(), n, w);
	return o;
}
std::string strf(const char *fmt, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}
std::string hex(const u8 *p, size_t n, size_t max)
{
	std::string s;
	char t[4];
	for (size_t i = 0; i < n && i < max; i++) {
		snprintf(t, sizeof t, "%02x", p[i]);
		s += t;
	}
	if (n > max)
		s += strf("..(%zu bytes)", n);
	return s;
}
bool unhex(const std::string &s, Bytes &out)
{
	out.clear();
	if (s.size() % 2)
		return false;
	for (size_t i = 0; i < s.size(); i += 2) {
		unsigned x;
		if (sscanf(s.c_str() + i, "%2x", &x) != 1)
			return false;
		out.push_back(x);
	}
	return true;
}
std::string diff(const char *what, const u8 *got, const u8 *want, size_t n)
{
	for (size_t i = 0; i < n; i++)
		if (got[i] != want[i]) {
			size_t k = 0;
			for (size_t j = 0; j < n; j++)
				k += got[j] != want[j];
			return strf("%s differs from the expected value in %zu of %zu bytes, first at byte %zu: got %02x, expected %02x",
				    what, k, n, i, got[i], want[i]);
		}
	return "";
}
// ---------------------------------------------------------------- cases
std::string Case::text() const
{
	std::ostringstream o;
	o << "check " << check << "\ntarget " << target << "\n";
	for (auto &p : n)
		o << "int " << p.first << " " << p.second << "\n";
	for (auto &p : b)
		o << "buf " << p.first << " " << (p.second.empty() ? std::string("-") : hex(p.second.data(), p.second.size(), (size_t)-1)) << "\n";
	return o.str();
}
std::string Case::brief() const
{
	std::string s = check + " on " + target + ":";
	for (auto &p : n)
		s += strf(" %s=%lld", p.first.c_str(), (long long)p.second);
	for (auto &p : b)
		s += strf(" %s[%zu]=%s", p.first.c_str(), p.second.size(), hex(p.second.data(), p.second.size(), 12).c_str());
	return s;
}
bool Case::parse(const std::string &text, Case &c)
{
	std::istringstream in(text);
	std::string line;
	while (std::getline(in, line)) {
		std::istringstream l(line);
		std::string k, a, v;
		l >> k >> a;
		if (k == "check")
			c.check = a;
		else if (k == "target")
			c.target = a;
		else if (k == "int") {
			long long x;
			l >> x;
			c.n[a] = x;
		} else if (k == "buf") {
			l >> v;
			Bytes b;
			if (v != "-" && !unhex(v, b))
				return false;
			c.b[a] = b;
		}
	}
	return !c.check.empty();
}
std::vector<TargetP> g_targets;
bool g_thorough;
double g_scale = 1;
TargetP find_target(const std::string &id)
{
	for (auto &t : g_targets)
		if (t->id == id)
			return t;
	return nullptr;
}
std::vector<std::string> all_targets(std::function<bool(Target &)> f)
{
	std::vector<std::string> v;
	for (auto &t : g_targets)
		if (!t->traced && (!f || f(*t)))
			v.push_back(t->id);
	return v;
}
std::map<std::string, std::vector<PropFn>> &registry()
{
	static std::map<std::string, std::vector<PropFn>> m;
	return m;
}
Registrar::Registrar(const char *id, PropFn f) { registry()[id].push_back(f); }

void RngFeed::fill(u8 *x, size_t n)
{
	draws.push_back(n);
	for (size_t i = 0; i < n; i++, pos++) {
		if (src && pos < src->size())
			x[i] = (*src)[pos];
		else {
			u64 z = pos * 77 + 5;
			x[i] = splitmix(z);
		}
	}
}
// ---------------------------------------------------------------- host targets
struct HostTarget : Target {
	void *h = nullptr;
	int (*fkey)(u8 *, u8 *) = nullptr;
	int (*fenc)(u8 *, u8 *, const u8 *) = nullptr;
	int (*fdec)(u8 *, const u8 *, const u8 *) = nullptr;
	void (*fset)(int (*)(void *, u8 *, unsigned long long), void *) = nullptr;
	static int feed(void *c, u8 *x, unsigned long long n)
	{
		((RngFeed *)c)->fill(x, n);
		return 0;
	}
	OpResult run(const Bytes *rnd, std::function<int()> f)
	{
		RngFeed rf;
		static const Bytes none;
		rf.src = rnd ? rnd : &none;
		fset(feed, &rf);
		OpResult r;
		r.rc = f();
		fset(nullptr, nullptr);
		r.draws = rf.draws;
		return r;
	}
	OpResult keypair(u8 *pk, u8 *sk, const Bytes &rnd) override
	{
		return run(&rnd, [&] { return fkey(pk, sk); });
	}
	OpResult enc(u8 *ct, u8 *ss, const u8 *pk, const Bytes &rnd) override
	{
		return run(&rnd, [&] { return fenc(ct, ss, pk); });
	}
	OpResult dec(u8 *ss, const u8 *ct, const u8 *sk) override
	{
		return run(nullptr, [&] { return fdec(ss, ct, sk); });
	}
	void *sym(const char *n) override { return h ? dlsym(h, n) : nullptr; }
};
TargetP make_host_target(const std::map<std::string, std::string> &kv)
{
	auto t = std::make_shared<HostTarget>();
	t->id = kv.at("id");
	t->kind = "host";
	t->family = kv.at("family");
	t->path = kv.at("path");
	t->P = make_params(atoi(kv.at("L").c_str()), atoi(kv.at("uni").c_str()), atoi(kv.at("n90").c_str()));
	t->lanes = atoi(kv.at("lanes").c_str());
	t->traced = kv.count("traced");
	t->h = dlopen(t->path.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!t->h) {
		fprintf(stderr, "cannot load %s: %s\n", t->path.c_str(), dlerror());
		exit(2);
	}
	*(void **)&t->fkey = dlsym(t->h, "crypto_kem_keypair");
	*(void **)&t->fenc = dlsym(t->h, "crypto_kem_enc");
	*(void **)&t->fdec = dlsym(t->h, "crypto_kem_dec");
	*(void **)&t->fset = dlsym(t->h, "vf_set_rng");
	const long *sz = (const long *)dlsym(t->h, "vf_sizes");
	if (!t->fkey || !t->fenc || !t->fdec || !t->fset || !sz) {
		fprintf(stderr, "%s lacks the KEM interface\n", t->id.c_str());
		exit(2);
	}
	t->pk = sz[0];
	t->sk = sz[1];
	t->ct = sz[2];
	t->ss = sz[3];
	return t;
}
// ---------------------------------------------------------------- running
struct Task {
	int check;
	std::string target;
	u64 start, n;
};
struct Slot {
	volatile int64_t task; // -1: none
	volatile u64 index;
};
struct Shared {
	std::atomic<u64> next;
	std::atomic<int> stop;
	Slot slot[64];
	static const u64 N = 1ull << 24;
	std::atomic<u64> digests[N]; // open addressing, shared by the workers: counts distinct cases once
	bool fresh(u64 d)
	{
		d |= 1;
		for (u64 i = d >> 20, k = 0; k < 4096; i++, k++) {
			u64 e = 0;
			if (digests[i % N].compare_exchange_strong(e, d))
				return true;
			if (e == d)
				return false;
		}
		return false;
	}
};
static std::string g_prop;
static u64 g_seed = 1;
static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static u64 case_seed(const Check &c, const std::string &target, u64 index)
{
	u64 h = hash_str(g_prop + "|" + c.name + "|" + target, g_seed * 0x9e3779b97f4a7c15ull + 11);
	return h ^ (index * 0xd6e8feb86659fd93ull + 0x2545F4914F6CDD1Dull);
}
static void generate(const Check &c, const std::string &target, u64 index, Case &k)
{
	Rng r(case_seed(c, target, index));
	k.check = c.name;
	k.target = target;
	TargetP t = find_target(target);
	c.gen(r, k, index, t.get());
}
static void arm(int seconds)
{
	struct itimerval it = {{0, 0}, {seconds, 0}};
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void execute(const Check &c, const Case &k, Out &o)
{
	TargetP t = find_target(k.target);
	arm(c.cpu_limit);
	c.run(k, o, t.get());
	arm(0);
}
static void write_all(int fd, const std::string &s)
{
	size_t p = 0;
	while (p < s.size()) {
		ssize_t n = write(fd, s.data() + p, s.size() - p);
		if (n < 0) {
			if (errno == EINTR)
				continue;
			_exit(3);
		}
		p += n;
	}
}
static std::string oneline(std::string s)
{
	for (auto &c : s)
		if (c == '\n' || c == '\t')
			c = ' ';
	return s;
}
static u64 case_digest(const Case &k)
{
	u64 h = hash_str(k.check + k.target);
	for (auto &p : k.b)
		h = hash64(p.second.data(), p.second.size(), h ^ hash_str(p.first));
	for (auto &p : k.n)
		h = hash64(&p.second, 8, h);
	return h;
}
static void worker(const Property &P, const std::vector<Task> &tasks, Shared *sh, int id, int fd, double deadline)
{
	std::set<std::string> sampled;
	for (;;) {
		if (sh->stop || now() > deadline)
			break;
		u64 t = sh->next++;
		if (t >= tasks.size())
			break;
		const Task &T = tasks[t];
		const Check &c = P.checks[T.check];
		std::map<std::string, u64> classes;
		u64 done = 0, nontriv = 0;
		sh->slot[id].task = t;
		std::string msg;
		for (u64 i = T.start; i < T.start + T.n; i++) {
			sh->slot[id].index = i;
			Case k;
			generate(c, T.target, i, k);
			Out o;
			execute(c, k, o);
			done++;
			if (o.nontrivial && sh->fresh(case_digest(k)))
				nontriv++;
			for (auto &x : o.classes)
				classes[x]++;
			if (o.nontrivial && sampled.size() < 400 && sampled.insert(c.name).second)
				msg += "S\t" + oneline(k.brief()) + "\n";
			if (!o.fail.empty()) {
				msg += strf("F\t%llu\t%llu\t", (unsigned long long)t, (unsigned long long)i) + oneline(o.fail) + "\n";
				sh->stop = 1;
				break;
			}
			if ((i & 15) == 0 && (sh->stop || now() > deadline + 5))
				break;
		}
		sh->slot[id].task = -1;
		msg += strf("T\t%llu\t%llu\t%llu", (unsigned long long)t, (unsigned long long)done, (unsigned long long)nontriv);
		for (auto &x : classes)
			msg += strf("\t%s=%llu", x.first.c_str(), (unsigned long long)x.second);
		msg += "\n";
		write_all(fd, msg);
	}
	write_all(fd, "E\n");
}
// runs one case in a child process: "" held, otherwise failure text
static std::string run_isolated(const Check &c, const Case &k, std::string *instead = nullptr)
{
	int p[2];
	if (pipe(p))
		exit(2);
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 2);
		Out o;
		execute(c, k, o);
		write_all(p[1], o.fail.empty() ? "OK" : "F" + o.fail + (o.instead ? "\x1e" + o.instead->text() : std::string()));
		_exit(0);
	}
	close(p[1]);
	std::string s;
	char buf[4096];
	ssize_t n;
	while ((n = read(p[0], buf, sizeof buf)) > 0)
		s.append(buf, n);
	close(p[0]);
	int st;
	waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) {
		int sg = WTERMSIG(st);
		if (sg == SIGVTALRM)
			return strf("no result within %d s of CPU time", c.cpu_limit);
		return strf("the code under test crashed (signal %d, %s)", sg, strsignal(sg));
	}
	if (s == "OK")
		return "";
	if (!s.empty() && s[0] == 'F') {
		size_t e = s.find('\x1e');
		if (e != std::string::npos && instead)
			*instead = s.substr(e + 1);
		return s.substr(1, e == std::string::npos ? e : e - 1);
	}
	return strf("the code under test ended the process (exit status %d)", WEXITSTATUS(st));
}
static void shrink(const Check &c, Case &k, std::string &why, double budget)
{
	if (c.no_shrink || getenv("VF_NOSHRINK"))
		return;
	double end = now() + budget;
	auto still = [&](const Case &t) {
		if (now() > end)
			return false;
		std::string w = run_isolated(c, t);
		if (w.empty())
			return false;
		why = w;
		return true;
	};
	for (auto &p : k.n) { // integers towards zero
		int64_t v = p.second;
		if (p.first == "unit") // the other fields depend on it
			continue;
		for (int64_t t : {(int64_t)0, (int64_t)1, v / 2, v - 1, v + 1}) {
			if (std::llabs(t) >= std::llabs(v))
				continue;
			Case q = k;
			q.n[p.first] = t;
			if (still(q)) {
				k = q;
				break;
			}
		}
	}
	for (auto &p : k.b) { // bytes towards zero, block sizes halving
		const std::string name = p.first;
		size_t n = k.b[name].size();
		for (size_t bl = n; bl >= 1; bl /= 2) {
			if (n / bl > 600 && bl > 1 && now() > end)
				break;
			for (size_t o = 0; o < n; o += bl) {
				if (now() > end)
					return;
				Case q = k;
				bool any = false;
				for (size_t i = o; i < o + bl && i < n; i++) {
					any |= q.b[name][i] != 0;
					q.b[name][i] = 0;
				}
				if (any && still(q))
					k = q;
			}
		}
	}
}
static std::string jesc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			o += '\\', o += c;
		else if (c < 32)
			o += ' ';
		else
			o += c;
	}
	return o;
}
static Property load_property(const std::string &id)
{
	Property P;
	P.id = id;
	auto it = registry().find(id);
	if (it == registry().end()) {
		fprintf(stderr, "unknown property %s\n", id.c_str());
		exit(2);
	}
	for (auto &f : it->second)
		f(P);
	return P;
}
static void load_targets(const char *file, const std::string &only)
{
	std::ifstream in(file);
	std::string line;
	while (std::getline(in, line)) {
		std::map<std::string, std::string> kv;
		std::istringstream l(line);
		std::string tok;
		while (l >> tok) {
			size_t e = tok.find('=');
			if (e != std::string::npos)
				kv[tok.substr(0, e)] = tok.substr(e + 1);
		}
		if (kv["kind"].empty())
			continue;
		if (!only.empty() && kv["id"].find(only) == std::string::npos)
			continue;
		TargetP t = kv["kind"] == "host" ? make_host_target(kv) : kv["kind"] == "m4" ? make_m4_target(kv) : make_m0_target(kv);
		g_targets.push_back(t);
	}
}
static std::string arg(int argc, char **argv, const char *name, const char *def)
{
	for (int i = 1; i + 1 < argc; i++)
		if (!strcmp(argv[i], name))
			return argv[i + 1];
	return def;
}
static const Check *check_named(const Property &P, const std::string &n)
{
	for (auto &c : P.checks)
		if (c.name == n)
			return &c;
	return nullptr;
}
int selftest(const std::string &katdir);
int isstest(int argc, char **argv);
int tainttest(u64 seed, int rounds);

int main(int argc, char **argv)
{
	if (argc < 2)
		return 2;
	std::string mode = argv[1];
	if (mode == "isstest")
		return isstest(argc, argv);
	if (mode == "selftest")
		return selftest(argc > 2 ? argv[2] : "/repo/KAT") | tainttest(1, 400000);
	g_prop = arg(argc, argv, "--prop", "");
	g_seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
	g_thorough = arg(argc, argv, "--tier", "quick") == "thorough";
	g_scale = atof(arg(argc, argv, "--scale", "1").c_str());
	std::string replays = arg(argc, argv, "--replays", ".");
	std::string only_check = arg(argc, argv, "--check", "");
	double wall = atof(arg(argc, argv, "--wall", "240").c_str());
	int nw = atoi(arg(argc, argv, "--workers", "8").c_str());
	load_targets(arg(argc, argv, "--targets", "").c_str(), arg(argc, argv, "--only", ""));
	Property P = load_property(g_prop);
	signal(SIGPIPE, SIG_IGN);

	if (mode == "replay") {
		std::ifstream in(argv[2]);
		std::stringstream ss;
		ss << in.rdbuf();
		Case k;
		if (!Case::parse(ss.str(), k))
			return 2;
		const Check *c = check_named(P, k.check);
		if (!c || (k.target != "-" && k.target.compare(0, 6, "group:") && !find_target(k.target))) {
			fprintf(stderr, "replay names an unknown check or target\n");
			return 2;
		}
		std::string why;
		if (k.b.count("vf_history")) { // generated cases, one after the other in one process
			g_seed = k.n["vf_seed"];
			fflush(stdout);
			pid_t pid = fork();
			if (!pid) {
				std::istringstream in(std::string(k.b["vf_history"].begin(), k.b["vf_history"].end()));
				std::string name;
				u64 a, n;
				while (in >> name >> a >> n) {
					const Check *hc = check_named(P, name);
					for (u64 i = a; hc && i < a + n; i++) {
						Case q;
						generate(*hc, k.target, i, q);
						Out o;
						execute(*hc, q, o);
						if (!o.fail.empty()) {
							printf("REPLAY fails: %s\n", o.fail.c_str());
							fflush(stdout);
							_exit(1);
						}
					}
				}
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
			if (WIFSIGNALED(st)) {
				printf("REPLAY fails: crash with signal %d\n", WTERMSIG(st));
				return 1;
			}
			if (WEXITSTATUS(st) == 0)
				printf("REPLAY holds\n");
			return WEXITSTATUS(st);
		}
		why = run_isolated(*c, k);
		if (why.empty()) {
			printf("REPLAY holds\n");
			return 0;
		}
		printf("REPLAY fails: %s\n", why.c_str());
		return 1;
	}
	if (mode != "run")
		return 2;
	double t0 = now(), deadline = t0 + wall;
	// tasks in rounds, so that every check and target is reached early
	std::vector<Task> tasks;
	std::map<std::string, u64> planned;
	{
		struct Row {
			int check;
			std::string target;
			u64 total, per, given;
		};
		std::vector<Row> rows;
		for (size_t i = 0; i < P.checks.size(); i++) {
			if (!only_check.empty() && P.checks[i].name != only_check)
				continue;
			for (auto &t : P.checks[i].targets()) {
				auto cn = P.checks[i].count(find_target(t).get());
				u64 total = (u64)(cn.first * g_scale + 0.5);
				if (!total)
					total = 1;
				rows.push_back({(int)i, t, total, cn.second ? cn.second : 1, 0});
			}
		}
		const int rounds = 16;
		for (int rd = 0; rd < rounds; rd++)
			for (auto &r : rows) {
				u64 upto = (r.total * (rd + 1) + rounds - 1) / rounds; // single cases come first
				while (r.given < upto) {
					u64 n = std::min(r.per, upto - r.given);
					tasks.push_back({r.check, r.target, r.given, n});
					r.given += n;
				}
			}
	}
	Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (sh) Shared();
	sh->next = 0;
	sh->stop = 0;
	struct W {
		pid_t pid;
		int fd;
		std::string buf;
		bool ended;
	};
	std::vector<W> ws;
	if (nw > 64)
		nw = 64;
	auto spawn = [&](int id) {
		int p[2];
		if (pipe(p))
			exit(2);
		sh->slot[id].task = -1;
		fflush(stdout);
		pid_t pid = fork();
		if (!pid) {
			close(p[0]);
			for (auto &w : ws)
				if (w.fd >= 0)
					close(w.fd);
			int dn = open("/dev/null", O_WRONLY);
			if (!getenv("VF_STDERR"))
				dup2(dn, 2);
			worker(P, tasks, sh, id, p[1], deadline);
			_exit(0);
		}
		close(p[1]);
		return W{pid, p[0], "", false};
	};
	for (int i = 0; i < nw; i++)
		ws.push_back(spawn(i));
	u64 evals = 0, nontriv = 0;
	std::map<std::string, u64> classes, per_check, per_target;
	std::vector<std::string> samples;
	struct Fail {
		u64 task, index;
		std::string why;
		std::vector<std::pair<u64, u64>> before; // tasks the same process had run, and how many cases of each
	};
	std::vector<Fail> fails;
	std::vector<std::vector<std::pair<u64, u64>>> ran(nw);
	int live = nw, crashes = 0;
	std::set<std::string> sampled_checks;
	auto handle = [&](const std::string &line, int worker) {
		std::vector<std::string> f;
		std::stringstream s(line);
		std::string x;
		while (std::getline(s, x, '\t'))
			f.push_back(x);
		if (f.empty())
			return;
		if (f[0] == "S" && f.size() > 1) {
			std::string cn = f[1].substr(0, f[1].find(' '));
			if (sampled_checks.insert(cn).second)
				samples.push_back(f[1]);
		} else if (f[0] == "F" && f.size() >= 4)
			fails.push_back({strtoull(f[1].c_str(), 0, 10), strtoull(f[2].c_str(), 0, 10), f[3], ran[worker]});
		else if (f[0] == "T" && f.size() >= 4) {
			u64 t = strtoull(f[1].c_str(), 0, 10), d = strtoull(f[2].c_str(), 0, 10);
			ran[worker].push_back({t, d});
			evals += d;
			nontriv += strtoull(f[3].c_str(), 0, 10);
			per_check[P.checks[tasks[t].check].name] += d;
			per_target[tasks[t].target] += d;
			for (size_t i = 4; i < f.size(); i++) {
				size_t e = f[i].rfind('=');
				classes[P.checks[tasks[t].check].name + "/" + f[i].substr(0, e)] += strtoull(f[i].c_str() + e + 1, 0, 10);
			}
		}
	};
	while (live > 0) {
		std::vector<struct pollfd> pf;
		std::vector<int> ix;
		for (int i = 0; i < nw; i++)
			if (ws[i].fd >= 0) {
				pf.push_back({ws[i].fd, POLLIN, 0});
				ix.push_back(i);
			}
		poll(pf.data(), pf.size(), 1000);
		for (size_t q = 0; q < pf.size(); q++) {
			if (!(pf[q].revents & (POLLIN | POLLHUP | POLLERR)))
				continue;
			W &w = ws[ix[q]];
			char buf[65536];
			ssize_t n = read(w.fd, buf, sizeof buf);
			if (n > 0) {
				w.buf.append(buf, n);
				size_t e;
				while ((e = w.buf.find('\n')) != std::string::npos) {
					std::string line = w.buf.substr(0, e);
					w.buf.erase(0, e + 1);
					if (line == "E")
						w.ended = true;
					else
						handle(line, ix[q]);
				}
				continue;
			}
			close(w.fd);
			w.fd = -1;
			int st;
			waitpid(w.pid, &st, 0);
			live--;
			if (!w.ended) {
				int64_t t = sh->slot[ix[q]].task;
				crashes++;
				std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGVTALRM ? std::string("no result within the CPU time limit")
											: strf("the code under test crashed (signal %d, %s)", WTERMSIG(st), strsignal(WTERMSIG(st))))
								  : strf("the code under test ended the process (exit status %d)", WEXITSTATUS(st));
				if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
					fprintf(stderr, "worker killed (out of memory?)\n");
					return 2;
				}
				if (t < 0) {
					fprintf(stderr, "worker died outside a case: %s\n", why.c_str());
					return 2;
				}
				fails.push_back({(u64)t, sh->slot[ix[q]].index, why, ran[ix[q]]});
				evals++;
				sh->stop = 1;
			}
		}
	}
	bool capped = sh->next < tasks.size() && fails.empty();
	int violations = 0, unconfirmed = 0;
	std::string vtext;
	mkdir(replays.c_str(), 0777);
	std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) { return a.task < b.task; });
	std::set<std::string> reported;
	for (auto &f : fails) {
		const Task &T = tasks[f.task];
		const Check *cp = &P.checks[T.check];
		if (reported.size() >= 2 || reported.count(cp->name))
			continue;
		Case k;
		generate(*cp, T.target, f.index, k);
		std::string why = f.why, instead;
		std::string w = run_isolated(*cp, k, &instead);
		Case other;
		if (!w.empty() && !instead.empty() && Case::parse(instead, other) && check_named(P, other.check)) {
			const Check *oc = check_named(P, other.check);
			std::string w2 = run_isolated(*oc, other);
			if (!w2.empty()) { // fails as an ordinary case, too
				w = w2;
				k = other;
				cp = oc;
			}
		}
		const Check &c = *cp;
		if (!w.empty()) {
			why = w;
			shrink(c, k, why, reported.empty() ? 60 : 20);
		}
		std::string file = replays + "/" + g_prop + "-" + c.name + "-" + std::to_string(g_seed) + ".case";
		for (auto &ch : file)
			if (ch == ' ')
				ch = '_';
		auto replayed = [&](int times) {
			{
				std::ofstream o(file);
				o << "property " << g_prop << "\n" << k.text() << "why " << oneline(why) << "\n";
			}
			int again = 0;
			for (int i = 0; i < times; i++) {
				fflush(stdout);
				pid_t pid = fork();
				if (!pid) {
					int dn = open("/dev/null", O_WRONLY);
					dup2(dn, 1);
					dup2(dn, 2);
					std::vector<char *> av;
					std::vector<std::string> a = {argv[0], "replay", file, "--prop", g_prop, "--targets", arg(argc, argv, "--targets", ""),
								      "--tier", g_thorough ? "thorough" : "quick", "--only", arg(argc, argv, "--only", "")};
					for (auto &s : a)
						av.push_back((char *)s.c_str());
					av.push_back(nullptr);
					execv("/proc/self/exe", av.data());
					_exit(2);
				}
				int st;
				waitpid(pid, &st, 0);
				again += WIFEXITED(st) && WEXITSTATUS(st) == 1;
			}
			return again;
		};
		if (w.empty()) { // only with its history: the shortest run of the same process's earlier cases on this target that shows it
			std::vector<std::string> past;
			for (auto &b : f.before)
				if (tasks[b.first].target == T.target && P.checks[tasks[b.first].check].name.find(' ') == std::string::npos)
					past.push_back(strf("%s %llu %llu\n", P.checks[tasks[b.first].check].name.c_str(), (unsigned long long)tasks[b.first].start,
							    (unsigned long long)b.second));
			std::string last = strf("%s %llu %llu\n", c.name.c_str(), (unsigned long long)T.start, (unsigned long long)(f.index - T.start + 1));
			double until = now() + 150;
			for (size_t n = 0;; n = n ? n * 2 : 1) {
				n = std::min(n, past.size());
				std::string text;
				for (size_t i = past.size() - n; i < past.size(); i++)
					text += past[i];
				text += last;
				Case h;
				h.check = k.check;
				h.target = k.target;
				h.n["vf_seed"] = g_seed;
				h.b["vf_history"] = Bytes(text.begin(), text.end());
				k = h;
				if (n == past.size() || replayed(1) || now() > until)
					break;
			}
		}
		int again = replayed(3);
		printf("%s: %s on %s: %s (reproduced %d of 3 times)\n", g_prop.c_str(), c.name.c_str(), T.target.c_str(), why.c_str(), again);
		if (again) {
			violations++;
			reported.insert(c.name);
			printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), file.c_str());
			vtext += why + "; ";
		} else
			unconfirmed++;
	}
	std::string ev = arg(argc, argv, "--evidence", "");
	double wall_s = now() - t0;
	if (!ev.empty()) {
		std::ofstream o(ev);
		o << "{\n \"property\": \"" << g_prop << "\",\n \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\",\n \"seed\": " << g_seed
		  << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << nontriv
		  << ",\n  \"rule\": \"";
		for (auto &c : P.checks)
			o << jesc(c.name + ": " + c.rule + ". ");
		o << "\",\n  \"samples\": [";
		for (size_t i = 0; i < samples.size(); i++)
			o << (i ? ",\n   \"" : "\n   \"") << jesc(samples[i]) << "\"";
		o << "\n  ],\n  \"cases_per_check\": {";
		bool first = true;
		for (auto &x : per_check)
			o << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second, first = false;
		o << "},\n  \"cases_per_target\": {";
		first = true;
		for (auto &x : per_target)
			o << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second, first = false;
		o << "},\n  \"classes\": {";
		first = true;
		for (auto &x : classes)
			o << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second, first = false;
		o << "},\n  \"time_cap_reached\": " << (capped ? "true" : "false") << ",\n  \"unconfirmed_failures\": " << unconfirmed
		  << "\n },\n \"wall_s\": " << wall_s << ",\n \"violations\": " << violations << ",\n \"assumptions\": [";
		first = true;
		for (auto &a : P.assumptions)
			o << (first ? "" : ", ") << "\"" << jesc(a) << "\"", first = false;
		o << "]\n}\n";
	}
	printf("%s %s seed %llu: %llu cases (%llu distinct non-trivial), %.1f s%s, violations %d%s\n", g_prop.c_str(), g_thorough ? "thorough" : "quick",
	       (unsigned long long)g_seed, (unsigned long long)evals, (unsigned long long)nontriv, wall_s, capped ? " (time cap reached)" : "", violations,
	       unconfirmed ? " (unconfirmed failures, see above)" : "");
	if (violations)
		return 1;
	return 0;
}
