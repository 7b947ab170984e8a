// C18: the Cortex-M0 firmware on a model of its board.
#include "emu_targets.h"
#include "kem.h"
#include <algorithm>

static bool take(Out &o, const char *what, const Bytes &got, const Bytes &want)
{
	std::string d = diff(what, got.data(), want.data(), want.size());
	return d.empty() ? true : o.bad(d);
}
// hardware output consumed since read number 'from' against what the caller received
static bool from_hardware(Out &o, Board &b, size_t from, const Bytes &got, const char *who)
{
	std::vector<u8> hw;
	for (size_t i = from; i < b.reads.size(); i++)
		for (int k = 0; k < b.reads[i].bytes; k++)
			hw.push_back(b.reads[i].v >> 8 * k);
	if (hw.size() < got.size())
		return o.bad(strf("%s: %zu bytes delivered from %zu bytes of hardware output", who, got.size(), hw.size()));
	if (hw.size() > got.size() + 3)
		return o.bad(strf("%s: %zu bytes of hardware output consumed for %zu bytes", who, hw.size(), got.size()));
	// consecutive output: each delivered byte is one of the bytes of the hardware word due at its place
	std::vector<bool> used(hw.size(), false);
	for (size_t i = 0; i < got.size(); i++) {
		bool hit = false;
		size_t lo = i / 4 * 4, hi = std::min(lo + 4, hw.size()); // any order within up to two words
		for (size_t j = lo; j < hi && !hit; j++)
			if (!used[j] && hw[j] == got[i])
				used[j] = hit = true;
		if (!hit)
			return o.bad(strf("%s: byte %zu of %zu is %02x, not hardware output", who, i, got.size(), got[i]));
	}
	return true;
}
static void rb_run(const Case &k, Out &o, Target *t)
{
	M0Target *z = m0(t);
	if (!z->broken.empty()) {
		o.bad("start-up: " + z->broken);
		return;
	}
	z->reset();
	z->hook_rng(false);
	z->board.stream = k.b.at("stream");
	z->board.pos = 0;
	// the generator as the firmware leaves it after its own initialisation
	std::vector<EArg> none;
	OpResult r = z->call("rng_enable", none);
	if (!r.fault.empty())
		o.bad("rng_enable: " + r.fault);
	for (int part = 0; part < 2 && o.fail.empty(); part++) { // a second request continues the stream
		size_t n = k.n.at(part ? "len2" : "len");
		size_t from = z->board.reads.size();
		std::vector<EArg> a = {EArg::out(n, part ? 0xa5 : 0x5a, k.n.at("skew") & 15), EArg::v64(n)};
		r = z->call("randombytes", a);
		if (!r.fault.empty())
			o.bad("randombytes: " + r.fault);
		else
			from_hardware(o, z->board, from, a[0].data, strf("request for %zu bytes", n).c_str());
	}
	o.nontrivial = k.n.at("len") + k.n.at("len2") > 0;
	z->hook_rng(true);
	z->fresh_board();
}
// The program running on the board, from its reset vector.
struct BoardRun {
	struct Draw {
		Bytes got;
		size_t from;
	};
	M0Target *z;
	Machine &m;
	Board &b;
	Out &o;
	std::vector<Draw> draws;
	size_t warm = 0;
	bool drawn = false;
	u32 rb = 0;
	static const u32 END = 0xfffffffeu;

	BoardRun(M0Target *z, const Case &k, Out &o) : z(z), m(z->m), b(z->board), o(o)
	{
		z->hook_rng(false);
		z->fresh_board();
		b.stream = k.b.at("stream");
		for (size_t i = 0; i < m.mem.size(); i++)
			m.mem[i] = z->power_up[i];
		// RAM at power-up
		const Bytes &ram = k.b.at("ram");
		u8 *p = m.raw(0x20000000, 0x4000);
		for (size_t i = 0; i < 0x4000 && !ram.empty(); i++)
			p[i] = ram[i % ram.size()] ^ (u8)((i / ram.size()) * k.n.at("step"));
		m.steps = 0;
		m.primask = false;
		m.in_irq = false;
		m.irqs = 0;
		m.irq_pending = false;
		m.irq_step = ~0ull;
		Board *bp = &b;
		m.on_timer = [bp](Machine &m) { bp->timer(m); };
		b.rate = (u32)std::max<u64>(1, k.n.at("rate"));
		u64 base = 1;
		for (int i = 0; i < 4; i++) {
			base += k.n.at(strf("irq%d", i));
			if (k.n.at(strf("irq%d", i)))
				b.jumps.push_back(base);
		}
		m.irq_vector = 0x2000003c; // the XMC1100 maps the SysTick vector there
		m.min_sp = 0xffffffffu;
	}
	~BoardRun()
	{
		m.irq_step = ~0ull;
		m.irq_pending = false;
		m.on_timer = nullptr;
		m.primask = false;
		m.in_irq = false;
		m.stop2 = 0;
		z->hook_rng(true);
		z->reset();
		z->fresh_board();
	}
	u32 at(const char *n) { return m.sym.at(n) & ~1u; }
	u32 power_on(std::initializer_list<const char *> syms)
	{
		for (auto n : syms)
			if (!m.sym.count(n))
				throw Fault{strf("the image has no %s", n)};
		for (int i = 0; i < 13; i++)
			m.R[i] = 0xbad00000u + i;
		m.R[13] = *(u32 *)m.raw(0x10001000, 4);
		m.R[14] = 0xffffffffu;
		if (m.R[13] != 0x20004000)
			throw Fault{strf("initial stack pointer 0x%08x is not the top of RAM", m.R[13])};
		rb = at("randombytes");
		return *(u32 *)m.raw(0x10001004, 4);
	}
	// runs to 'to', recording the random bytes requested on the way
	void go(u32 pc, u32 to)
	{
		m.stop2 = rb;
		for (;;) {
			m.run(pc, to);
			if ((m.R[15] & ~1u) == (to & ~1u))
				break;
			// at randombytes
			u32 x = m.R[0], n = m.R[2], ret = m.R[14] & ~1u;
			if (m.R[3] || n > 4096)
				throw Fault{strf("request for 0x%x%08x random bytes", m.R[3], n)};
			if (!drawn)
				warm = b.reads.size();
			drawn = true;
			Draw d;
			d.from = b.reads.size();
			m.stop2 = 0;
			m.run(rb, ret);
			m.stop2 = rb;
			d.got.resize(n);
			m.read(d.got.data(), x, n);
			if (!from_hardware(o, b, d.from, d.got, "random bytes in the KEM"))
				throw Fault{o.fail};
			draws.push_back(d);
			pc = ret;
			if (pc == (to & ~1u))
				break;
		}
		m.stop2 = 0;
	}
	Bytes rd(u32 a, size_t n)
	{
		Bytes x(n);
		m.read(x.data(), a, n);
		return x;
	}
	Bytes joined()
	{
		Bytes x;
		for (auto &d : draws)
			append(x, d.got);
		draws.clear();
		return x;
	}
	void same(const char *what, const Bytes &got, const Bytes &want)
	{
		if (!take(o, what, got, want))
			throw Fault{o.fail};
	}
	void set_up_well()
	{
		static const u16 key[5] = {0x19b2, 0x5856, 0xe1c1, 0x50ca, 0x834c};
		if (b.keys.size() != 5 || !std::equal(b.keys.begin(), b.keys.end(), key))
			throw Fault{strf("the random generator was given %zu key words, or others than its key", b.keys.size())};
		if (b.dead_reads)
			throw Fault{"random words were read while the generator was not running"};
		if (warm < 4)
			throw Fault{strf("only %zu words discarded before the first random bytes", warm)};
		if (b.lost)
			throw Fault{strf("%u characters written to a full transmit FIFO", b.lost)};
	}
	// the number after the next report 's' on the serial line
	u64 report(const char *s, size_t &p)
	{
		p = b.uart.find(s, p);
		if (p == std::string::npos)
			throw Fault{strf("no \"%s\" report on the serial line: %s", s, b.uart.substr(0, 200).c_str())};
		p += strlen(s);
		if (b.uart.find_first_not_of("0123456789ABCDEF", p) != p + 8 || b.uart.compare(p + 8, 2, "\r\n"))
			throw Fault{strf("report \"%s\" is malformed", s)};
		return strtoul(b.uart.substr(p, 8).c_str(), nullptr, 16);
	}
	// ticks from one moment to another, and how often the timer ran out between them
	struct Span {
		u64 took, ovf;
	};
	template <class F> Span timed(F f)
	{
		u64 s0 = m.steps, j0 = b.jumped, w0 = b.wraps;
		b.may_jump = true;
		b.timer(m);
		f();
		b.may_jump = false;
		b.timer(m);
		return {(m.steps - s0) * b.rate + (b.jumped - j0), b.wraps - w0};
	}
	// the time from the timer's start to its end, less what starting and ending it takes; each time the
	// timer runs out, the handler starts it afresh, so that what passes until then is lost
	void right_time(const char *s, u64 said, Span t)
	{
		u64 slack = 100 * (t.ovf + 1) * b.rate + 4;
		if (said + slack < t.took || said > t.took + slack)
			throw Fault{strf("report \"%s\" says %llu ticks for an operation of %llu ticks, during which the timer ran out %llu times", s,
					 (unsigned long long)said, (unsigned long long)t.took, (unsigned long long)t.ovf)};
	}
};
static void boot_run(const Case &k, Out &o, Target *t)
{
	M0Target *z = m0(t);
	if (z->m.sym.size() == 0) {
		o.bad("no program");
		return;
	}
	BoardRun x(z, k, o);
	Machine &m = x.m;
	BoardRun::Span span[3];
	try {
		u32 start = x.power_on({"crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec", "randombytes", "main", "BSS_END"});
		u32 kp = x.at("crypto_kem_keypair"), en = x.at("crypto_kem_enc"), de = x.at("crypto_kem_dec");
		x.go(start, kp);
		u32 pk_a = m.R[0], sk_a = m.R[1], ret = m.R[14];
		x.joined();
		span[0] = x.timed([&] { x.go(kp, ret); });
		Bytes rnd = x.joined(), pk = x.rd(pk_a, t->pk), sk = x.rd(sk_a, t->sk), epk, esk;
		if (rnd.size() != 96)
			throw Fault{strf("key generation drew %zu random bytes", rnd.size())};
		expect_keypair(*t, rnd, epk, esk);
		x.same("public key", pk, epk);
		x.same("secret key", sk, esk);
		x.go(ret, en);
		x.joined();
		u32 ct_a = m.R[0], ss_a = m.R[1], pk_b = m.R[2];
		ret = m.R[14];
		x.same("public key given to encapsulation", x.rd(pk_b, t->pk), epk);
		span[1] = x.timed([&] { x.go(en, ret); });
		rnd = x.joined();
		Bytes ct = x.rd(ct_a, t->ct), ss = x.rd(ss_a, 32), ect, ess;
		if (rnd.size() != 32)
			throw Fault{strf("encapsulation drew %zu random bytes", rnd.size())};
		expect_enc(*t, epk, rnd, ect, ess);
		x.same("ciphertext", ct, ect);
		x.same("shared secret", ss, ess);
		x.go(ret, de);
		u32 sd_a = m.R[0], ct_b = m.R[1], sk_b = m.R[2];
		ret = m.R[14];
		x.same("ciphertext given to decapsulation", x.rd(ct_b, t->ct), ect);
		x.same("secret key given to decapsulation", x.rd(sk_b, t->sk), esk);
		memset(m.raw(sd_a, 32), 0, 32); // the program passes the same buffer again
		span[2] = x.timed([&] { x.go(de, ret); });
		x.same("decapsulated secret", x.rd(sd_a, 32), ess);
		x.go(ret, BoardRun::END);
		u32 bss = m.sym.at("BSS_END");
		if (m.min_sp < bss)
			throw Fault{strf("the stack grew down to 0x%08x into the static data, which end at 0x%08x", m.min_sp, bss)};
		x.set_up_well();
		size_t p = 0;
		int q = 0;
		for (auto s : {"keygen time= 0x", "encaps time= 0x", "decaps time= 0x"}) {
			u64 said = x.report(s, p);
			x.right_time(s, said, span[q++]);
		}
	} catch (Fault &f) {
		if (o.fail.empty())
			o.bad(f.what);
	}
	o.nontrivial = true;
	o.cls(strf("%llu timer interrupts taken", (unsigned long long)m.irqs));
}
// C25: the memory benchmark
static void memsize_run(const Case &k, Out &o, Target *t)
{
	M0Target *z = m0(t);
	if (z->m.sym.size() == 0) {
		o.bad("no program");
		return;
	}
	BoardRun x(z, k, o);
	Machine &m = x.m;
	try {
		u32 start = x.power_on({"crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec", "randombytes", "main", "BSS_END"});
		u32 ops[3] = {x.at("crypto_kem_keypair"), x.at("crypto_kem_enc"), x.at("crypto_kem_dec")};
		u32 mainp = x.at("main"), bss = m.sym.at("BSS_END"), pc = start;
		x.go(pc, mainp);
		u32 main_sp = m.R[13];
		pc = mainp;
		struct Use {
			u32 changed, deepest, sp; // lowest stack byte changed, lowest stack pointer, stack pointer at the call
		} use[6];
		Bytes pk, sk, ct, ss, before;
		std::vector<u32> out;
		for (int i = 0; i < 6; i++) {
			int op = i % 3;
			x.go(pc, ops[op]);
			x.joined();
			u32 a0 = m.R[0], a1 = m.R[1], a2 = m.R[2], ret = m.R[14] & ~1u, sp = m.R[13];
			if (op == 1)
				x.same("public key given to encapsulation", x.rd(a2, t->pk), pk);
			if (op == 2) {
				x.same("ciphertext given to decapsulation", x.rd(a1, t->ct), ct);
				x.same("secret key given to decapsulation", x.rd(a2, t->sk), sk);
			}
			if (i < 4) // the last measurement spans three operations
				before = Bytes(m.raw(bss, sp - bss), m.raw(bss, sp - bss) + (sp - bss));
			u32 outer = m.min_sp;
			m.min_sp = sp;
			x.go(ops[op], ret);
			Use &u = use[i];
			u.sp = sp;
			u.deepest = m.min_sp;
			m.min_sp = std::min(outer, m.min_sp);
			u.changed = sp;
			for (u32 a = bss; a < sp; a++)
				if (*m.raw(a, 1) != before.at(a - bss)) {
					u.changed = a;
					break;
				}
			Bytes rnd = x.joined();
			if (op == 0) {
				if (rnd.size() != 96)
					throw Fault{strf("key generation drew %zu random bytes", rnd.size())};
				expect_keypair(*t, rnd, pk, sk);
				x.same("public key", x.rd(a0, t->pk), pk);
				x.same("secret key", x.rd(a1, t->sk), sk);
			} else if (op == 1) {
				if (rnd.size() != 32)
					throw Fault{strf("encapsulation drew %zu random bytes", rnd.size())};
				expect_enc(*t, pk, rnd, ct, ss);
				x.same("ciphertext", x.rd(a0, t->ct), ct);
				x.same("shared secret", x.rd(a1, 32), ss);
			} else
				x.same("decapsulated secret", x.rd(a0, 32), ss);
			pc = ret;
		}
		x.go(pc, BoardRun::END);
		x.set_up_well();
		if (m.min_sp < bss)
			throw Fault{strf("the stack grew down to 0x%08x into the static data, which end at 0x%08x", m.min_sp, bss)};
		size_t p = 0;
		int q = 0;
		for (auto s : {"RAM keygen0x", "RAM encaps0x", "RAM decaps0x", "RAM total0x"}) {
			u64 said = x.report(s, p);
			u32 low = use[q].changed, deep = use[q].deepest, sp = use[q].sp;
			if (q == 3)
				for (int i = 4; i < 6; i++) {
					low = std::min(low, use[i].changed);
					deep = std::min(deep, use[i].deepest);
					sp = std::min(sp, use[i].sp);
				}
			// measured from within the program's own frame, down to a byte the operations wrote
			u64 least = sp - low > 8 ? sp - low - 8 : 0, most = main_sp - deep;
			if (said < least || said > most)
				throw Fault{strf("report \"%s\" says %llu bytes, but the stack was written from %llu bytes below the caller's frame, and at most %llu in use", s,
						 (unsigned long long)said, (unsigned long long)least, (unsigned long long)most)};
			o.cls(strf("%s%04llX", s, (unsigned long long)said & ~63ull));
			q++;
		}
		if (x.b.uart.size() != p + 10)
			throw Fault{strf("more on the serial line than the four reports: %s", x.b.uart.substr(p, 80).c_str())};
	} catch (Fault &f) {
		if (o.fail.empty())
			o.bad(f.what);
	}
	o.nontrivial = true;
}
// C25: the peripherals' test program
static void periph_run(const Case &k, Out &o, Target *t)
{
	M0Target *z = m0(t);
	if (z->m.sym.size() == 0) {
		o.bad("no program");
		return;
	}
	BoardRun x(z, k, o);
	Machine &m = x.m;
	try {
		u32 start = x.power_on({"randombytes", "main", "start_tick_count", "end_tick_count", "BSS_END"});
		u32 t0 = x.at("start_tick_count"), t1 = x.at("end_tick_count"), pc = start;
		x.go(pc, x.at("main"));
		x.go(x.at("main"), t0); // while setting up, to calibrate
		u32 ret = m.R[14] & ~1u;
		x.go(t0, ret);
		x.go(ret, t1);
		ret = m.R[14] & ~1u;
		x.go(t1, ret);
		pc = ret;
		size_t p = x.b.uart.size();
		if (p)
			throw Fault{"something on the serial line before the first round"};
		BoardRun::Span last{0, 0};
		for (u64 i = 0; i <= k.n.at("rounds"); i++) {
			x.go(pc, t0);
			if (i) { // the previous round's report is out
				if (x.b.uart.compare(p, 14, "test time = 0x"))
					throw Fault{strf("round %llu: no \"test time\" report on the serial line", (unsigned long long)i)};
				u64 said = x.report("test time = 0x", p);
				p += 10;
				x.right_time("test time = 0x", said, last);
				if (p != x.b.uart.size())
					throw Fault{strf("round %llu: more on the serial line than expected", (unsigned long long)i)};
			}
			x.joined();
			ret = m.R[14] & ~1u;
			x.go(t0, ret);
			last = x.timed([&] { x.go(ret, t1); });
			ret = m.R[14] & ~1u;
			x.go(t1, ret);
			pc = ret;
			Bytes rnd = x.joined();
			if (rnd.size() != 16)
				throw Fault{strf("round %llu drew %zu random bytes, not 16", (unsigned long long)i, rnd.size())};
			Bytes line(x.b.uart.begin() + p, x.b.uart.begin() + std::min(x.b.uart.size(), p + 28)), want = rnd;
			for (char c : std::string("0x00000000\r\n"))
				want.push_back((u8)c);
			if (line.size() != 28)
				throw Fault{strf("round %llu: %zu characters on the serial line, not 28", (unsigned long long)i, line.size())};
			x.same("serial line", line, want);
			p += 28;
		}
		x.set_up_well();
		if (m.min_sp < m.sym.at("BSS_END"))
			throw Fault{"the stack grew into the static data"};
	} catch (Fault &f) {
		if (o.fail.empty())
			o.bad(f.what);
	}
	o.nontrivial = true;
	o.cls(strf("%llu timer interrupts taken", (unsigned long long)m.irqs));
}
static Registrar r18b("C18", [](Property &P) {
	P.assumptions = {"instruction-set model of ARMv6-M and a functional model of the XMC1100's random generator, serial port, clock and timer, written for this work",
			 "the order of the bytes within one or two hardware words is left open"};
	Check c;
	auto tg = [] { return all_targets([](Target &t) { return t.kind == "m0"; }); };
	c.targets = tg;
	c.name = "randombytes";
	c.rule = "two consecutive requests of swept and generated lengths, from a generated hardware stream: buffers filled exactly, with consecutive hardware output";
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		k.n["len"] = i < 300 ? i : r.chance(1, 20) ? r.below(9000) : r.below(700);
		k.n["len2"] = r.below(70);
		k.n["skew"] = r.below(16);
		// repeated bytes would hide displaced ones
		k.b["stream"] = uniform_bytes(r, 2 * (k.n["len"] + k.n["len2"]) + 64);
	};
	c.run = rb_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 60000 : 2500, 16); };
	c.no_shrink = false;
	P.checks.push_back(c);
	c.name = "boot";
	c.rule = "the whole program from its reset vector, with generated RAM contents at power-up, hardware random stream and timer interrupts: keys, ciphertext and secrets equal the model's for the bytes drawn; memory, stack, generator set-up and serial reports checked";
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		k.b["stream"] = uniform_bytes(r, 400);
		k.b["ram"] = r.chance(1, 4) ? Bytes{0xff} : gen_bytes(r, 1 + r.below(64));
		k.n["step"] = r.below(256);
		k.n["rate"] = r.chance(1, 2) ? 1 + r.below(3) : 1 + r.below(30); // timer ticks per instruction
		for (int q = 0; q < 4; q++)
			k.n[strf("irq%d", q)] = i % 3 == 0 ? 0 : r.chance(1, 2) ? 1 + r.below(2000000) : 1 + r.below(40000);
	};
	c.run = boot_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 4000 : 150, 1); };
	P.checks.push_back(c);
});
static Registrar r25("C25", [](Property &P) {
	P.assumptions = {"the board model of C18; the builds are made as evaluate.py makes them, by replacing the line that defines SPEED in main.c"};
	Check c;
	auto tg = [](const char *what) { return [what] { return all_targets([what](Target &t) { return t.kind == what; }); }; };
	auto gen = [](Rng &r, Case &k) {
		k.b["ram"] = r.chance(1, 4) ? Bytes{(u8)(r.chance(1, 2) ? 42 : 0xff)} : gen_bytes(r, 1 + r.below(64));
		k.n["step"] = r.chance(1, 3) ? 0 : r.below(256);
		k.n["rate"] = r.chance(1, 2) ? 1 + r.below(3) : 1 + r.below(30);
		for (int q = 0; q < 4; q++)
			k.n[strf("irq%d", q)] = 0;
	};
	c.name = "memory";
	c.rule = "the memory benchmark from its reset vector, with generated RAM contents at power-up and hardware random stream: each of the four reports lies between the depth of the lowest stack byte the operations changed and the deepest the stack pointer went; keys, ciphertexts and secrets equal the model's";
	c.targets = tg("m0mem");
	c.gen = [gen](Rng &r, Case &k, u64, Target *) {
		gen(r, k);
		k.b["stream"] = uniform_bytes(r, 800);
	};
	c.run = memsize_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 2500 : 80, 1); };
	P.checks.push_back(c);
	c.name = "peripherals";
	c.rule = "rounds of the peripherals' test program, with generated timer rates and interrupts: each sends 16 bytes of fresh hardware output, the number 0, and the ticks between the timer's start and end";
	c.targets = tg("m0test");
	c.gen = [gen](Rng &r, Case &k, u64 i, Target *) {
		gen(r, k);
		k.n["rounds"] = 1 + r.below(4);
		k.b["stream"] = uniform_bytes(r, 64 + 32 * (k.n["rounds"] + 1));
		for (int q = 0; q < 4; q++)
			k.n[strf("irq%d", q)] = i % 3 == 0 ? 0 : 1 + r.below(400);
	};
	c.run = periph_run;
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 3000 : 100, 1); };
	P.checks.push_back(c);
});
