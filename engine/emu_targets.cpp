// Cortex-M4 and Cortex-M0 programs on the instruction-set model.
#include "emu_targets.h"
#include "taint.h"
#include <algorithm>

static const u64 KRC[24] = {0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull,
			    0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
			    0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull,
			    0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull,
			    0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull,
			    0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull};
void keccak_f1600(u64 s[25])
{
	static const int rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
	static const int pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
	for (int r = 0; r < 24; r++) {
		u64 b[5];
		for (int i = 0; i < 5; i++)
			b[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
		for (int i = 0; i < 5; i++) {
			u64 t = b[(i + 4) % 5] ^ (b[(i + 1) % 5] << 1 | b[(i + 1) % 5] >> 63);
			for (int j = 0; j < 25; j += 5)
				s[j + i] ^= t;
		}
		u64 t = s[1];
		for (int i = 0; i < 24; i++) {
			u64 x = s[pil[i]];
			s[pil[i]] = t << rot[i] | t >> (64 - rot[i]);
			t = x;
		}
		for (int j = 0; j < 25; j += 5) {
			for (int i = 0; i < 5; i++)
				b[i] = s[j + i];
			for (int i = 0; i < 5; i++)
				s[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]);
		}
		s[0] ^= KRC[r];
	}
}

OpResult EmuTarget::call(const char *name, std::vector<EArg> &args, u32 *ret)
{
	OpResult r;
	r.rc = 0;
	auto it = m.sym.find(name);
	if (it == m.sym.end()) {
		r.fault = strf("no function %s in this program", name);
		return r;
	}
	// lay the buffers out, each between inaccessible bytes
	m.setperm(arena, arena_size, 0);
	u32 p = arena + 64, reg = 0;
	std::vector<u32> addr(args.size());
	u32 regs[4] = {0x11111111, 0x22222222, 0x33333333, 0x44444444};
	for (size_t k = 0; k < args.size(); k++) {
		EArg &a = args[k];
		if (a.kind == EArg::VAL && a.alias >= 0) {
			addr[k] = addr[a.alias];
			if (reg < 4)
				regs[reg++] = addr[k];
			continue;
		}
		if (a.kind == EArg::VAL) {
			if (a.wide) {
				reg = (reg + 1) & ~1u;
				if (reg + 1 < 4) {
					regs[reg] = (u32)a.val;
					regs[reg + 1] = a.val >> 32;
				}
				reg += 2;
			} else if (reg < 4)
				regs[reg++] = (u32)a.val;
			continue;
		}
		p = (p + 15) / 16 * 16 + a.skew;
		addr[k] = p;
		u32 n = a.data.size();
		if (p + n + 64 > arena + arena_size) {
			r.fault = "internal: argument arena too small";
			return r;
		}
		if (n) {
			memcpy(m.raw(p, n), a.data.data(), n);
			m.setperm(p, n, a.kind == EArg::IN ? PR : PR | PW);
			if (m.taint) {
				m.taint->mark(m, p, n, 0);
				m.taint->mark(m, p, a.secret.data(), std::min<size_t>(n, a.secret.size()));
			}
		}
		if (reg < 4)
			regs[reg++] = p;
		p += n + 32;
	}
	if (reg > 4) {
		r.fault = "internal: too many arguments";
		return r;
	}
	for (int k = 0; k < 4; k++)
		m.R[k] = regs[k];
	u32 saved[8];
	for (int k = 4; k < 12; k++)
		saved[k - 4] = m.R[k] = 0xc0de0000u + k * 0x101;
	m.R[12] = 0x99999999u;
	u32 stop = 0xfffffff0u;
	m.R[13] = stack_hi;
	m.R[14] = stop | 1;
	m.steps = 0;
	m.trace = 0;
	m.min_sp = stack_hi;
	feed.draws.clear();
	try {
		m.run(it->second, stop);
		if (m.R[13] != stack_hi)
			throw Fault{strf("%s returned with the stack pointer moved by %d", name, (int)(m.R[13] - stack_hi))};
		for (int k = 4; k < 12; k++)
			if (m.R[k] != saved[k - 4])
				throw Fault{strf("%s did not preserve r%d", name, k)};
		if (m.min_sp < stack_lo)
			throw Fault{strf("%s: the stack grew to 0x%08x, below its limit 0x%08x", name, m.min_sp, stack_lo)};
	} catch (Fault &f) {
		r.fault = f.what;
	}
	r.rc = (int)m.R[0];
	if (ret)
		*ret = m.R[0];
	r.draws = feed.draws;
	r.trace = m.trace;
	r.steps = m.steps;
	for (size_t k = 0; k < args.size(); k++)
		if (args[k].kind == EArg::OUT || args[k].kind == EArg::INOUT)
			if (args[k].data.size())
				memcpy(args[k].data.data(), m.raw(addr[k], args[k].data.size()), args[k].data.size());
	if (m.taint)
		for (size_t k = 0; k < args.size(); k++)
			if (args[k].kind == EArg::OUT || args[k].kind == EArg::INOUT)
				r.marked = r.marked || m.taint->any(m, addr[k], args[k].data.size());
	return r;
}
void EmuTarget::repoison(u8 fill)
{
	memset(m.raw(stack_lo, stack_hi - stack_lo), fill, stack_hi - stack_lo);
}
void EmuTarget::reset()
{
	for (size_t k = 0; k < m.mem.size(); k++)
		if (k != 0) // not the program itself
			m.mem[k] = pristine[k];
}
static OpResult finish(OpResult r) { return r; }
OpResult EmuTarget::keypair(u8 *pk_, u8 *sk_, const Bytes &rnd)
{
	feed.src = &rnd;
	feed.pos = 0;
	std::vector<EArg> a = {EArg::out(pk, 0, skew & 15), EArg::out(sk, 0, (skew >> 4) & 15)};
	memcpy(a[0].data.data(), pk_, pk);
	memcpy(a[1].data.data(), sk_, sk);
	OpResult r = call("crypto_kem_keypair", a);
	memcpy(pk_, a[0].data.data(), pk);
	memcpy(sk_, a[1].data.data(), sk);
	feed.src = nullptr;
	return finish(r);
}
OpResult EmuTarget::enc(u8 *ct_, u8 *ss_, const u8 *pk_, const Bytes &rnd)
{
	feed.src = &rnd;
	feed.pos = 0;
	std::vector<EArg> a = {EArg::out(ct, 0, skew & 15), EArg::out(ss, 0, (skew >> 4) & 15), EArg::in(Bytes(pk_, pk_ + pk), (skew >> 8) & 15)};
	memcpy(a[0].data.data(), ct_, ct);
	memcpy(a[1].data.data(), ss_, ss);
	OpResult r = call("crypto_kem_enc", a);
	memcpy(ct_, a[0].data.data(), ct);
	memcpy(ss_, a[1].data.data(), ss);
	feed.src = nullptr;
	return finish(r);
}
OpResult EmuTarget::dec(u8 *ss_, const u8 *ct_, const u8 *sk_)
{
	Bytes none;
	feed.src = &none;
	feed.pos = 0;
	std::vector<EArg> a = {EArg::out(ss, 0, skew & 15), EArg::in(Bytes(ct_, ct_ + ct), (skew >> 4) & 15), EArg::in(Bytes(sk_, sk_ + sk), (skew >> 8) & 15)};
	memcpy(a[0].data.data(), ss_, ss);
	a[2].secret = secret_sk;
	OpResult r = call("crypto_kem_dec", a);
	memcpy(ss_, a[0].data.data(), ss);
	feed.src = nullptr;
	return finish(r);
}

// ------------------------------------------------------------------ Cortex-M4
// Supervisor calls of the pqm4 stand-ins (glue/m4/pqm4.c): hashing is done by the host.
static void sponge_absorb(Machine &m, u32 ctx, u32 in, u32 n, u32 rate)
{
	u64 s[26];
	m.read((u8 *)s, ctx, 208);
	Bytes b(n);
	m.read(b.data(), in, n);
	for (u32 k = 0; k < n; k++) {
		((u8 *)s)[s[25]++] ^= b[k];
		if (s[25] == rate) {
			keccak_f1600(s);
			s[25] = 0;
		}
	}
	m.write(ctx, (u8 *)s, 208);
	if (m.taint && m.taint->any(m, in, n))
		m.taint->mark(m, ctx, 200, 0xff);
}
static void sponge_finalize(Machine &m, u32 ctx, u32 rate)
{
	u64 s[26];
	m.read((u8 *)s, ctx, 208);
	((u8 *)s)[s[25] % rate] ^= 0x1f;
	((u8 *)s)[rate - 1] ^= 0x80;
	s[25] = 0;
	m.write(ctx, (u8 *)s, 208);
}
static void sponge_squeeze(Machine &m, u32 out, u32 n, u32 ctx, u32 rate)
{
	u64 s[26];
	m.read((u8 *)s, ctx, 208);
	Bytes b(n);
	for (u32 k = 0; k < n; k++) {
		if (s[25] == 0) {
			keccak_f1600(s);
			s[25] = rate;
		}
		b[k] = ((u8 *)s)[rate - s[25]];
		s[25]--;
	}
	m.write(out, b.data(), n);
	m.write(ctx, (u8 *)s, 208);
	if (m.taint)
		m.taint->mark(m, out, n, m.taint->any(m, ctx, 200) ? 0xff : 0);
}
static void pqm4_call(EmuTarget &t, Machine &m, u32 n)
{
	u32 a = m.R[0], b = m.R[1], c = m.R[2], d = m.R[3];
	if (m.taint) {
		int args = n == 1 || n == 6 || n == 8 || n == 11 ? 1 : n == 4 || n == 5 ? 4 : 3;
		if (n == 1)
			args = 2;
		for (int k = 0; k < args; k++)
			if (m.taint->T[k])
				m.taint->report(m.last_pc, "an address or length given to a hash function depends on the secret");
		m.taint->T[0] = 0;
	}
	auto hash = [&](u32 out, u32 on, u32 in, u32 inn, int kind) {
		if (on > 1 << 20 || inn > 1 << 20)
			throw Fault{strf("hash of %u to %u bytes", inn, on)};
		Bytes i(inn), o(on);
		m.read(i.data(), in, inn);
		switch (kind) {
		case 0: model::sha3_256(o.data(), i.data(), inn); break;
		case 1: model::sha3_512(o.data(), i.data(), inn); break;
		case 2: model::shake(128, o.data(), on, i.data(), inn); break;
		default: model::shake(256, o.data(), on, i.data(), inn); break;
		}
		bool secret = m.taint && m.taint->any(m, in, inn);
		m.write(out, o.data(), on);
		if (m.taint)
			m.taint->mark(m, out, on, secret ? 0xff : 0);
	};
	switch (n) {
	case 1: {
		if (b > 1 << 20)
			throw Fault{strf("request for %u random bytes", b)};
		Bytes x(b);
		t.feed.fill(x.data(), b);
		m.write(a, x.data(), b);
		if (m.taint)
			m.taint->mark(m, a, b, 0xff);
		m.R[0] = 0;
		break;
	}
	case 2: hash(a, 32, b, c, 0); break;
	case 3: hash(a, 64, b, c, 1); break;
	case 4: hash(a, b, c, d, 2); break;
	case 5: hash(a, b, c, d, 3); break;
	case 6: { // init
		u64 z[26] = {0};
		m.write(a, (u8 *)z, 208);
		if (m.taint)
			m.taint->mark(m, a, 208, 0);
		break;
	}
	case 7: sponge_absorb(m, a, b, c, 168); break;
	case 8: sponge_finalize(m, a, 168); break;
	case 9: sponge_squeeze(m, a, b, c, 168); break;
	case 10: sponge_absorb(m, a, b, c, 136); break;
	case 11: sponge_finalize(m, a, 136); break;
	case 12: sponge_squeeze(m, a, b, c, 136); break;
	default:
		throw Fault{strf("unknown supervisor call %u", n)};
	}
}
static void sizes_from(EmuTarget &t)
{
	u32 v[4];
	memcpy(v, t.m.raw(t.m.sym.at("vf_sizes"), 16), 16);
	t.pk = v[0];
	t.sk = v[1];
	t.ct = v[2];
	t.ss = v[3];
}
TargetP make_m4_target(const std::map<std::string, std::string> &kv)
{
	auto t = std::make_shared<EmuTarget>();
	t->id = kv.at("id");
	t->kind = "m4";
	t->family = kv.at("family");
	t->path = kv.at("path");
	t->P = make_params(atoi(kv.at("L").c_str()), 0, 0);
	t->compressed = kv.count("comp") && kv.at("comp") == "1";
	Machine &m = t->m;
	m.v6m = kv.count("v6m") != 0;
	m.limit = 40000000;
	m.add(0x08000000, 0x80000, PR | PX);
	m.add(0x20000000, 0x10000, PR | PW); // static data
	t->stack_lo = 0x20020000;
	t->stack_hi = 0x20030000;
	m.add(t->stack_lo, t->stack_hi - t->stack_lo, PR | PW);
	t->arena = 0x20100000;
	t->arena_size = 0x20000;
	m.add(t->arena, t->arena_size, 0);
	if (kv.count("broken")) {
		FILE *f = fopen(kv.at("broken").c_str(), "r");
		char buf[1000];
		size_t n = f ? fread(buf, 1, sizeof buf, f) : 0;
		if (f)
			fclose(f);
		t->broken = n ? std::string(buf, n) : "does not build";
		t->kind = "units";
		return t;
	}
	try {
		m.load_elf(t->path, false);
		if (kv.count("bare") == 0)
			sizes_from(*t);
		else
			t->kind = "units"; // no KEM interface
	} catch (std::exception &e) {
		fprintf(stderr, "%s: %s\n", t->id.c_str(), e.what());
		exit(2);
	} catch (Fault &f) {
		fprintf(stderr, "%s: %s\n", t->id.c_str(), f.what.c_str());
		exit(2);
	}
	EmuTarget *raw = t.get();
	m.svc = [raw](Machine &mm, u32 n) { pqm4_call(*raw, mm, n); };
	t->repoison(t->poison);
	t->pristine = m.mem;
	return t;
}

// ------------------------------------------------------------------ Cortex-M0 board
u16 Board::next_word()
{
	u16 w;
	if (pos + 1 < stream.size())
		w = stream[pos] | stream[pos + 1] << 8;
	else {
		u64 z = (pos + 1) * 0x9E3779B97F4A7C15ull;
		z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull;
		w = (u16)(z >> 20);
	}
	pos += 2;
	return w;
}
void Board::timer(Machine &m)
{
	u64 n = (m.steps - at) * rate;
	at = m.steps;
	if (csr & 1) {
		auto zero = [&] {
			wraps++;
			csr |= 1u << 16;
			if (csr & 2)
				m.irq_pending = true;
		};
		while (n) {
			if (!cvr) { // reload takes one tick
				cvr = rvr;
				n--;
				if (!cvr)
					break;
				continue;
			}
			u64 k = std::min<u64>(n, cvr);
			cvr -= (u32)k;
			n -= k;
			if (!cvr)
				zero();
		}
		bool jump = may_jump && !m.irq_pending && !m.in_irq && next_jump < jumps.size();
		if (jump && m.steps >= jumps[next_jump]) {
			next_jump++;
			u32 left = cvr ? cvr : rvr;
			if (left > 1) {
				jumped += left - 1 + (cvr ? 0 : 1);
				cvr = 1;
			}
		}
		m.irq_step = m.steps + (cvr ? cvr + rate - 1 : (u64)rvr + rate) / rate;
		if (may_jump && next_jump < jumps.size())
			m.irq_step = std::min(m.irq_step, std::max(m.steps + 1, jumps[next_jump]));
	} else
		m.irq_step = ~0ull;
}
bool Board::access(Machine &m, u32 a, u32 n, bool write, u32 &v)
{
	bool known = (a >= 0x40000000 && a < 0x60000000) || (a >= 0xe000e000 && a < 0xe000f000);
	if (!known)
		return false;
	u32 base = a & ~3u;
	if (base >= 0x48020000 && base < 0x48020010) { // random generator
		switch (base & 0xf) {
		case 0:
			if (write) {
				if (ctrl & 8)
					keys.push_back((u16)v);
				else
					stray_writes++;
			} else {
				if ((ctrl & 8) || keys.size() < 5 || !((ctrl >> 1) & 3)) {
					v = 0; // key loading, or not initialised
					dead_reads++;
				} else {
					v = next_word();
					if (((ctrl >> 1) & 3) == 1)
						v &= 0xff;
					reads.push_back({(u16)v, (u8)(((ctrl >> 1) & 3) == 1 ? 1 : 2)});
				}
			}
			return true;
		case 4:
			if (!write) {
				// data valid after a few polls
				v = polls++ % 3 == 2;
			}
			return true;
		case 0xc:
			if (write)
				ctrl = (u16)v;
			else
				v = ctrl;
			return true;
		}
		return true;
	}
	u32 &r = regs[base];
	if (base == trbsr) { // USIC0_CH0_TRBSR
		if (!write) {
			// the FIFO drains while the program waits for it
			if (tx_polls++ % 3 == 2)
				fifo = 0;
			v = (fifo == 0 ? 1u << 11 : 0) | 1u << 3;
			return true;
		}
	}
	if (base >= 0x48000180 && base < 0x48000200 && write) { // transmit FIFO
		if (fifo >= 32)
			lost++;
		else
			fifo++;
		uart.push_back((char)v);
		return true;
	}
	if (base == 0x40010300 && !write) { // SCU_CLKCR: busy for a while after a change
		v = r & ~(1u << 30);
		if (clk_busy > 0) {
			clk_busy--;
			v |= 1u << 30;
		}
		return true;
	}
	if (base >= 0xe000e010 && base < 0xe000e01c) { // SysTick
		timer(m);
		u32 &q = base == 0xe000e010 ? csr : base == 0xe000e014 ? rvr : cvr;
		if (!write) {
			v = q;
			if (base == 0xe000e010)
				csr &= ~(1u << 16); // reading clears the flag
		} else if (base == 0xe000e018) {
			cvr = 0; // whatever is written
			csr &= ~(1u << 16);
		} else
			q = base == 0xe000e014 ? v & 0xffffff : (v & 7) | (csr & 1u << 16);
		timer(m);
		return true;
	}
	if (write) {
		u32 sh = (a & 3) * 8;
		if (n == 4)
			r = v;
		else {
			u32 mask = (n == 2 ? 0xffffu : 0xffu) << sh;
			r = (r & ~mask) | (v << sh & mask);
		}
		if (base == 0x40010300)
			clk_busy = 4;
	} else {
		v = r >> ((a & 3) * 8);
		if (n < 4)
			v &= n == 2 ? 0xffff : 0xff;
	}
	return true;
}
void M0Target::fresh_board()
{
	board = Board();
	board.trbsr = 0x48000114;
}
TargetP make_m0_target(const std::map<std::string, std::string> &kv)
{
	auto t = std::make_shared<M0Target>();
	t->id = kv.at("id");
	t->kind = kv.at("kind"); // m0: the committed program; m0mem, m0test: the other programs main.c holds
	t->family = "m0";
	t->path = kv.at("path");
	t->P = make_params(3, 0, 0);
	t->pk = atoi(kv.at("pk").c_str());
	t->sk = atoi(kv.at("sk").c_str());
	t->ct = atoi(kv.at("ct").c_str());
	t->ss = atoi(kv.at("ss").c_str());
	Machine &m = t->m;
	m.v6m = true;
	m.limit = 200000000;
	m.add(0x10001000, 0x10000, PR | PX, 0xff);
	m.add(0x20000000, 0x4000, PR | PW | PX);
	t->arena = 0x30000000; // test bench memory, not on the board
	t->arena_size = 0x8000;
	m.add(t->arena, t->arena_size, 0);
	M0Target *raw = t.get();
	m.device = [raw](Machine &mm, u32 a, u32 n, bool w, u32 &v) { return raw->board.access(mm, a, n, w, v); };
	try {
		m.load_elf(t->path, true);
		for (auto n : {"main", "crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec", "randombytes", "BSS_END"})
			if (!m.sym.count(n) && t->kind != "m0test")
				throw Fault{strf("no symbol %s", n)};
		t->stack_hi = 0x20004000;
		t->stack_lo = (m.sym.at("BSS_END") + 7) & ~7u;
		// contents of RAM at power-up are arbitrary
		memset(m.raw(0x20000000, 0x4000), 0x5c, 0x4000);
		t->power_up = m.mem;
		// start-up code up to main, for the direct calls
		t->fresh_board();
		m.R[13] = *(u32 *)m.raw(0x10001000, 4);
		m.R[14] = 0xffffffffu;
		m.run(*(u32 *)m.raw(0x10001004, 4), m.sym.at("main"));
	} catch (Fault &f) {
		t->broken = f.what; // reported by the checks
	}
	t->pristine = m.mem;
	u32 rb = m.sym.count("randombytes") ? m.sym.at("randombytes") & ~1u : 0;
	t->rb_hook = rb;
	t->hook_rng(true);
	return t;
}
void M0Target::hook_rng(bool on)
{
	m.hooks.clear();
	m.flush();
	if (on && rb_hook)
		m.hooks[rb_hook] = [this](Machine &mm) {
			u32 a = mm.R[0];
			u64 n = (u64)mm.R[3] << 32 | mm.R[2];
			if (n > 65536)
				throw Fault{strf("request for %llu random bytes", (unsigned long long)n)};
			Bytes x(n);
			feed.fill(x.data(), n);
			mm.write(a, x.data(), n);
			if (mm.taint)
				mm.taint->mark(mm, a, n, 0xff);
			mm.R[15] = mm.R[14];
		};
}
