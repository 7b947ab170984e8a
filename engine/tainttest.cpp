// The following of secrets against its definition: changing only the bits marked secret before
// an instruction may change only the bits marked secret after it.
#include "emu_ops.h"
#include "taint.h"
int tainttest(u64 seed, int rounds)
{
	Machine m;
	m.add(0x1000, 0x100, PR | PX);
	m.add(0x2000, 0x1000, PR | PW);
	Rng r(seed);
	u64 done = 0, marked = 0;
	std::map<int, u64> ops;
	for (int k = 0; k < rounds; k++) {
		m.v6m = false;
		u16 h = (u16)r.next(), g = (u16)r.next();
		switch (r.below(4)) { // aim at the dense parts of the encoding
		case 0: h &= 0x5fff; break;
		case 1: h = 0xea00 | (h & 0x7ff); break;
		case 2: h = 0xf000 | (h & 0x5ff); g &= 0x7fff; break;
		default: h = 0xfa00 | (h & 0x1ff); if (r.below(2)) g |= 0xf000; break;
		}
		memcpy(m.raw(0x1000, 2), &h, 2);
		memcpy(m.raw(0x1002, 2), &g, 2);
		m.flush();
		u32 cond = r.below(3) ? 14 : r.below(14);
		int left = cond == 14 ? 0 : 1;
		Insn i = m.decode(0x1000, cond, left);
		if (i.op == NONE || i.op == UNDEF || (i.op >= B && i.op <= STREX) || i.op >= SVC)
			continue;
		if (i.rd >= 13 || i.rn == 13 || i.rm == 13 || i.rm == 15)
			continue;
		bool lng = i.op >= SMULL && i.op <= SMLSLD;
		bool uses_ra = lng || i.op == MLA || i.op == MLS || (i.op >= SMLAXY && i.op <= USAD8);
		if (uses_ra && i.ra == 13)
			continue;
		if (uses_ra && lng && (i.ra >= 13 || i.ra == i.rd))
			continue;
		if ((i.op == UBFX || i.op == SBFX || i.op == BFI || i.op == BFC) && (i.imm > 32 || i.shn + i.imm > 32))
			continue;
		u32 R[16], T[16];
		for (int q = 0; q < 16; q++) {
			static const u32 special[] = {0, 1, 2, 31, 32, 0xff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xffff};
			R[q] = r.below(2) ? special[r.below(10)] : (u32)r.next();
			T[q] = r.below(2) ? 0 : r.below(3) ? (u32)(r.next() & r.next() & r.next()) : (u32)r.next();
		}
		R[13] = 0x2800;
		T[13] = T[15] = 0;
		bool fl[4], tf[4];
		for (int q = 0; q < 4; q++) {
			fl[q] = r.below(2);
			tf[q] = r.below(4) == 0;
		}
		u32 ge = r.below(16), tge = r.below(3) ? 0 : r.below(16);
		auto exec = [&](Taint *t) {
			m.taint = t;
			m.steps = 0;
			m.irq_step = ~0ull;
			// the instruction with its condition, directly from the decoder
			m.code.clear();
			Machine::Code c;
			c.base = 0x1000;
			c.size = 0x100;
			c.insn.resize(0x81);
			c.insn[0] = i;
			m.code.push_back(c);
			m.run(0x1000, 0x1000 + i.len);
			m.taint = nullptr;
		};
		auto load = [&](bool flip) {
			for (int q = 0; q < 16; q++)
				m.R[q] = R[q] ^ (flip ? (u32)(T[q] & (r.below(4) ? r.next() : ~0ull)) : 0);
			m.N = fl[0] ^ (flip && tf[0] && r.below(2));
			m.Z = fl[1] ^ (flip && tf[1] && r.below(2));
			m.C = fl[2] ^ (flip && tf[2] && r.below(2));
			m.V = fl[3] ^ (flip && tf[3] && r.below(2));
			m.ge = ge ^ (flip ? tge & r.below(16) : 0);
		};
		Taint t(m);
		memcpy(t.T, T, sizeof T);
		t.n = tf[0], t.z = tf[1], t.c = tf[2], t.v = tf[3], t.ge = tge;
		load(false);
		exec(&t);
		if (t.events) // reported
			continue;
		u32 A[16], age = m.ge;
		bool af[4] = {m.N, m.Z, m.C, m.V};
		memcpy(A, m.R, sizeof A);
		done++;
		ops[i.op]++;
		for (int q = 0; q < 13; q++)
			marked += t.T[q] != T[q];
		for (int rep = 0; rep < 8; rep++) {
			load(true);
			exec(nullptr);
			std::string why;
			for (int q = 0; q < 15; q++)
				if ((A[q] ^ m.R[q]) & ~t.T[q])
					why = strf("r%d: %08x or %08x, marked %08x", q, A[q], m.R[q], t.T[q]);
			if ((af[0] != m.N && !t.n) || (af[1] != m.Z && !t.z) || (af[2] != m.C && !t.c) || (af[3] != m.V && !t.v))
				why = strf("flags %d%d%d%d or %d%d%d%d, marked %d%d%d%d", af[0], af[1], af[2], af[3], m.N, m.Z, m.C, m.V, t.n, t.z, t.c, t.v);
			if ((age ^ m.ge) & ~t.ge)
				why = "GE flags";
			if (!why.empty()) {
				printf("secret following: %04x %04x (op %d cond %d): %s\n", h, g, i.op, i.cond, why.c_str());
				return 1;
			}
		}
	}
	printf("secret following: %llu instructions of %zu kinds, no unmarked change\n", (unsigned long long)done, ops.size());
	return done < 1000;
}
