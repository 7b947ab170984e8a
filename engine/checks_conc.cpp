// C13: concurrent calls in different threads on different buffers.
#include "kem.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

typedef int (*RngFn)(void *, u8 *, unsigned long long);
struct Job {
	int op;
	Bytes i1, i2, rnd, o1, o2, e1, e2;
};
static std::vector<Job> make_jobs(u64 seed, Target *t, int n)
{
	Rng r(seed);
	std::vector<Job> v;
	for (int i = 0; i < n; i++) {
		Job j;
		j.op = r.below(3);
		for (int l = 0; l < t->lanes; l++) {
			if (j.op == 0)
				append(j.rnd, gen_rnd(r, 3));
			else if (j.op == 1) {
				append(j.i1, gen_pk(r, t->P));
				append(j.rnd, gen_rnd(r, 1));
			} else {
				Bytes sk = honest_sk(r, t->P);
				append(j.i1, gen_ct(r, t->P, sk));
				append(j.i2, sk);
			}
		}
		j.o1.resize(j.op == 0 ? t->pk : j.op == 1 ? t->ct : t->ss);
		j.o2.resize(j.op == 0 ? t->sk : j.op == 1 ? t->ss : 0);
		v.push_back(j);
	}
	return v;
}
struct Fns {
	void (*set)(RngFn, void *);
	int (*key)(u8 *, u8 *);
	int (*enc)(u8 *, u8 *, const u8 *);
	int (*dec)(u8 *, const u8 *, const u8 *);
};
static const Fns &fns(Target *t) // resolved once, before any thread is suspended
{
	static std::map<Target *, Fns> m;
	auto it = m.find(t);
	if (it != m.end())
		return it->second;
	Fns f;
	*(void **)&f.set = t->sym("vf_set_rng");
	*(void **)&f.key = t->sym("crypto_kem_keypair");
	*(void **)&f.enc = t->sym("crypto_kem_enc");
	*(void **)&f.dec = t->sym("crypto_kem_dec");
	return m[t] = f;
}
static int call(Target *t, Job &j, RngFn f, void *ctx)
{
	const Fns &F = fns(t);
	auto set = F.set;
	set(f, ctx);
	int rc;
	if (j.op == 0)
		rc = F.key(j.o1.data(), j.o2.data());
	else if (j.op == 1)
		rc = F.enc(j.o1.data(), j.o2.data(), j.i1.data());
	else
		rc = F.dec(j.o1.data(), j.i1.data(), j.i2.data());
	set(nullptr, nullptr);
	return rc;
}
static int feed(void *c, u8 *x, unsigned long long n)
{
	((RngFeed *)c)->fill(x, n);
	return 0;
}
static int plain_call(Target *t, Job &j)
{
	RngFeed f;
	f.draws.reserve(32);
	f.src = &j.rnd;
	return call(t, j, feed, &f);
}
static bool baseline(Target *t, std::vector<Job> &v, Out &o)
{
	for (auto &j : v) {
		if (plain_call(t, j))
			return o.bad("an operation running alone reported failure");
		j.e1 = j.o1;
		j.e2 = j.o2;
		std::fill(j.o1.begin(), j.o1.end(), 0);
		std::fill(j.o2.begin(), j.o2.end(), 0);
	}
	return true;
}
static const char *names[] = {"key generation", "encapsulation", "decapsulation"};
static std::string judge(const Job &j, int rc)
{
	if (rc)
		return strf("%s returned %d", names[j.op], rc);
	std::string d = diff(names[j.op], j.o1.data(), j.e1.data(), j.e1.size());
	if (d.empty() && !j.e2.empty())
		d = diff(names[j.op], j.o2.data(), j.e2.data(), j.e2.size());
	return d;
}
// ---- many threads at once
static void stress_run(const Case &k, Out &o, Target *t)
{
	int nt = 2 + (k.n.at("threads") & 7), rounds = 1 + (k.n.at("rounds") & 31);
	std::vector<std::vector<Job>> js;
	for (int i = 0; i < nt; i++) {
		js.push_back(make_jobs(k.n.at("seed") * 64 + i, t, 6));
		if (!baseline(t, js.back(), o))
			return;
	}
	std::atomic<int> ready(0);
	std::atomic<bool> failed(false);
	std::vector<std::string> why(nt);
	std::vector<std::thread> th;
	for (int i = 0; i < nt; i++)
		th.emplace_back([&, i] {
			ready++;
			while (ready < nt)
				;
			for (int r = 0; r < rounds && !failed; r++)
				for (auto &j : js[i]) {
					int rc = plain_call(t, j);
					std::string d = judge(j, rc);
					if (!d.empty()) {
						why[i] = d;
						failed = true;
						return;
					}
				}
		});
	for (auto &x : th)
		x.join();
	for (auto &w : why)
		if (!w.empty()) {
			o.bad(w + " (while other threads were running operations, against the result alone)");
			break;
		}
	o.nontrivial = true;
	o.cls(strf("threads-%d", nt));
}
// ---- one operation suspended at a generated point while another thread completes operations
static struct Handoff {
	sem_t go, back;
	std::vector<Job> *others;
	Target *t;
	std::vector<std::string> why;
	std::atomic<bool> quit;
	int done;
} H;
static void *helper(void *)
{
	for (;;) {
		while (sem_wait(&H.go))
			;
		if (H.quit)
			return nullptr;
		for (auto &j : *H.others) {
			std::string d = judge(j, plain_call(H.t, j));
			if (!d.empty())
				H.why.push_back(d);
			H.done++;
		}
		sem_post(&H.back);
	}
}
static volatile sig_atomic_t pending;
static void handoff()
{
	int e = errno;
	sem_post(&H.go);
	// The suspended thread may hold a lock of the C library that the helper needs: give up waiting
	// after a while, resume, and collect the helper afterwards.
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	ts.tv_nsec += 50000000;
	if (ts.tv_nsec >= 1000000000)
		ts.tv_nsec -= 1000000000, ts.tv_sec++;
	int rc;
	while ((rc = sem_timedwait(&H.back, &ts)) && errno == EINTR)
		;
	pending = rc != 0;
	errno = e;
}
struct PointFeed : RngFeed {
	int at, n = 0;
	bool fired = false;
};
static int point_feed(void *c, u8 *x, unsigned long long n)
{
	PointFeed *p = (PointFeed *)c;
	bool fire = p->n++ == p->at;
	if (fire && n > 1)
		p->fired = true;
	p->fill(x, n);
	if (fire) {
		p->fired = true;
		handoff();
	}
	return 0;
}
static volatile sig_atomic_t armed;
static void on_timer(int)
{
	if (!armed)
		return;
	armed = 0;
	handoff();
}
static void start_helper(Target *t, std::vector<Job> &others, pthread_t &th)
{
	sem_init(&H.go, 0, 0);
	sem_init(&H.back, 0, 0);
	H.others = &others;
	H.t = t;
	H.why.clear();
	H.quit = false;
	H.done = 0;
	sigset_t s, old;
	sigemptyset(&s);
	sigaddset(&s, SIGUSR1);
	pthread_sigmask(SIG_BLOCK, &s, &old); // the helper is never interrupted
	pthread_create(&th, nullptr, helper, nullptr);
	pthread_sigmask(SIG_SETMASK, &old, nullptr);
}
static void stop_helper(pthread_t th)
{
	H.quit = true;
	sem_post(&H.go);
	pthread_join(th, nullptr);
	sem_destroy(&H.go);
	sem_destroy(&H.back);
}
static void suspend_run(const Case &k, Out &o, Target *t)
{
	auto victims = make_jobs(k.n.at("seed") * 2, t, 4), others = make_jobs(k.n.at("seed") * 2 + 1, t, 3);
	if (!baseline(t, victims, o) || !baseline(t, others, o))
		return;
	pthread_t th;
	start_helper(t, others, th);
	struct sigaction sa = {}, old;
	sa.sa_handler = on_timer;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGUSR1, &sa, &old);
	struct sigevent ev = {};
	ev.sigev_notify = SIGEV_THREAD_ID;
	ev.sigev_signo = SIGUSR1;
	ev._sigev_un._tid = syscall(SYS_gettid);
	timer_t tm;
	timer_create(CLOCK_MONOTONIC, &ev, &tm);
	int hits = 0;
	Rng r(k.n.at("seed") + 77);
	for (auto &j : victims) {
		// how long it takes alone
		struct timespec a, b;
		clock_gettime(CLOCK_MONOTONIC, &a);
		plain_call(t, j);
		clock_gettime(CLOCK_MONOTONIC, &b);
		u64 dur = (b.tv_sec - a.tv_sec) * 1000000000ull + b.tv_nsec - a.tv_nsec;
		dur = std::min<u64>(std::max<u64>(dur, 5000), 20000000);
		for (int rep = 0; rep < 6 && o.fail.empty(); rep++) {
			std::fill(j.o1.begin(), j.o1.end(), 0);
			std::fill(j.o2.begin(), j.o2.end(), 0);
			int before = H.done;
			RngFeed f;
			PointFeed pf;
			f.draws.reserve(32);
			pf.draws.reserve(32);
			int rc;
			if (rep < 2 && j.op < 2) { // suspended inside its request for random bytes
				pf.src = &j.rnd;
				pf.at = r.below(j.op == 0 ? 3 * t->lanes : t->lanes);
				rc = call(t, j, point_feed, &pf);
			} else {
				u64 ns = 1 + r.below(dur);
				struct itimerspec it = {{0, 0}, {(time_t)(ns / 1000000000), (long)(ns % 1000000000)}};
				f.src = &j.rnd;
				armed = 1;
				timer_settime(tm, 0, &it, nullptr);
				rc = call(t, j, feed, &f);
				armed = 0;
			}
			if (pending) {
				while (sem_wait(&H.back))
					;
				pending = 0;
			}
			hits += H.done > before;
			std::string d = judge(j, rc);
			if (!d.empty())
				o.bad(d + " (suspended while another thread ran operations, against the result alone)");
			if (!H.why.empty())
				o.bad(H.why[0] + " (run while another thread's operation was suspended, against the result alone)");
		}
	}
	timer_delete(tm);
	sigaction(SIGUSR1, &old, nullptr);
	stop_helper(th);
	o.nontrivial = hits > 0;
	o.cls(strf("suspensions-%d", hits / 4 * 4));
}
static Registrar r13("C13", [](Property &P) {
	P.assumptions = {"each thread has its own random source", "schedules are those the machine produces under load, plus a suspension at a generated point during which another thread completes whole operations"};
	Check c;
	c.name = "stress";
	c.rule = "2 to 9 threads run generated operations at the same time, every result compared with the result of the same call alone";
	c.targets = [] { return all_targets([](Target &t) { return t.kind == "host"; }); };
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		k.n["seed"] = r.below(1u << 30);
		k.n["threads"] = r.below(8);
		k.n["rounds"] = 8 + r.below(16);
	};
	c.run = stress_run;
	c.no_shrink = true;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 1500 : 24, 1); };
	P.checks.push_back(c);
	c.name = "suspended";
	c.rule = "an operation is suspended (inside a request for random bytes, or by a timer at a generated instant) while another thread completes three operations; at least one suspension took place";
	c.run = suspend_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 4000 : 80, 2); };
	P.checks.push_back(c);
});
