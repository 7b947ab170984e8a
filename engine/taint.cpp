#include "taint.h"
#include "emu_ops.h"

Taint::Taint(Machine &m)
{
	for (auto &x : m.mem)
		sh.emplace_back(x.size, 0);
}
u8 *Taint::at(Machine &m, u32 a, u32 n)
{
	for (size_t k = 0; k < m.mem.size(); k++)
		if (a - m.mem[k].base < m.mem[k].size && m.mem[k].size - (a - m.mem[k].base) >= n)
			return &sh[k][a - m.mem[k].base];
	return nullptr;
}
u32 Taint::ld(Machine &m, u32 a, u32 n)
{
	u32 t = 0;
	if (u8 *p = at(m, a, n))
		memcpy(&t, p, n);
	return t;
}
void Taint::st(Machine &m, u32 a, u32 n, u32 t)
{
	if (u8 *p = at(m, a, n))
		memcpy(p, &t, n);
}
void Taint::mark(Machine &m, u32 a, const u8 *mask, size_t n)
{
	if (u8 *p = n ? at(m, a, n) : nullptr)
		memcpy(p, mask, n);
}
void Taint::mark(Machine &m, u32 a, size_t n, u8 mask)
{
	if (u8 *p = n ? at(m, a, n) : nullptr)
		memset(p, mask, n);
}
bool Taint::any(Machine &m, u32 a, size_t n)
{
	u8 *p = n ? at(m, a, n) : nullptr;
	for (size_t k = 0; p && k < n; k++)
		if (p[k])
			return true;
	return false;
}
void Taint::report(u32 pc, const std::string &what)
{
	if (!events++) {
		first = what;
		first_pc = pc;
	}
}
static u32 ror(u32 v, u32 n)
{
	n &= 31;
	return n ? v >> n | v << (32 - n) : v;
}
static u32 low_and_up(u32 t) { return t ? ~0u << __builtin_ctz(t) : 0; }
// lowest bit of a product that can differ, counted in 64 bits
static int prod_low(u32 a, u32 ta, u32 b, u32 tb)
{
	u32 pa = a | ta, pb = b | tb;
	int lo = 64;
	if (ta && pb)
		lo = std::min(lo, __builtin_ctz(ta) + __builtin_ctz(pb));
	if (tb && pa)
		lo = std::min(lo, __builtin_ctz(tb) + __builtin_ctz(pa));
	return lo;
}
void Taint::step(Machine &m, const Insn &i, u32 pc, bool taken)
{
	u32 *R = m.R;
	auto full = [](bool b) { return b ? ~0u : 0u; };
	bool unsure = false;
	if (i.cond < 14) {
		switch (i.cond >> 1) {
		case 0: unsure = z; break;
		case 1: unsure = c; break;
		case 2: unsure = n; break;
		case 3: unsure = v; break;
		case 4: // C and not Z: known false as soon as one known part says so
			unsure = (c && (z || !m.Z)) || (z && (c || m.C));
			break;
		case 5: unsure = n || v; break;
		case 6: unsure = (z && (n || v || m.N == m.V)) || ((n || v) && (z || !m.Z)); break;
		}
	}
	if (unsure) {
		switch ((Op)i.op) {
		case B: case BL: case BX: case BLX: case CBZ: case CBNZ: case TBB: case TBH: case SVC: case HOOK:
			report(pc, "a conditional branch depends on the secret");
			break;
		case LDR: case LDRB: case LDRH: case LDRSB: case LDRSH: case STR: case STRB: case STRH: case LDRD: case STRD:
		case LDM: case STM: case LDMDB: case STMDB: case LDREX: case STREX:
			report(pc, "whether memory is accessed depends on the secret");
			break;
		case SDIV: case UDIV:
			report(pc, "whether a division takes place depends on the secret");
			break;
		case TST: case TEQ: case CMN: case CMP: case TST_I: case TEQ_I: case CMN_I: case CMP_I:
			n = z = c = v = true;
			return;
		case NOP: case ITOP: case CPS: case MSR: case BKPT: case UNDEF:
			return;
		case SMULL: case UMULL: case SMLAL: case UMLAL: case UMAAL: case SMLALXY: case SMLALD: case SMLSLD:
			T[i.ra] = ~0u;
			// fallthrough
		default:
			if (i.rd == 15)
				report(pc, "a jump depends on the secret");
			T[i.rd] = ~0u;
			if (i.s)
				n = z = c = v = true;
			if (i.op == PAR)
				ge = 0xf;
			return;
		}
	}
	if (!taken)
		return;
	T[15] = 0;
	auto zflag = [&](u32 val, u32 t) { return t && !(val & ~t); };
	auto nz = [&](u32 val, u32 t) {
		n = t >> 31;
		z = zflag(val, t);
	};
	auto setrd = [&](u32 t) {
		if (i.rd == 15) {
			if (t)
				report(pc, "a computed jump depends on the secret");
		} else
			T[i.rd] = t;
	};
	// the second operand and the carry out of its shift
	u32 b = 0, tb = 0;
	bool tc = c;
	auto op2 = [&] {
		u32 x = R[i.rm], t = T[i.rm], k = i.shn;
		switch (i.sh) {
		case 0:
			if (k) {
				tc = t >> (32 - k) & 1;
				x <<= k;
				t <<= k;
			}
			break;
		case 1:
			tc = t >> (k - 1) & 1;
			x = k == 32 ? 0 : x >> k;
			t = k == 32 ? 0 : t >> k;
			break;
		case 2:
			tc = t >> (k - 1) & 1;
			x = (u32)((int32_t)x >> (k == 32 ? 31 : k));
			t = (u32)((int32_t)t >> (k == 32 ? 31 : k));
			break;
		case 3:
			x = ror(x, k);
			t = ror(t, k);
			tc = t >> 31;
			break;
		default: {
			bool low = t & 1;
			x = x >> 1 | (u32)m.C << 31;
			t = t >> 1 | (u32)c << 31;
			tc = low;
		}
		}
		b = x;
		tb = t;
	};
	auto imm = [&] {
		b = i.imm;
		tb = 0;
		tc = i.ra == 2 ? c : false;
	};
	u32 a = R[i.rn], ta = T[i.rn];
	auto logic = [&](u32 val, u32 t, bool write) {
		if (i.s || !write) {
			nz(val, t);
			c = tc;
		}
		if (write)
			setrd(t);
	};
	auto t_and = [](u32 x, u32 tx, u32 y, u32 ty) { return (tx & (y | ty)) | (ty & (x | tx)); };
	// x + y + carry
	auto add = [&](u32 x, u32 tx, u32 y, u32 ty, bool ci, bool tci, bool write, bool same) {
		u64 lo = (u64)(x & ~tx) + (y & ~ty) + (ci && !tci), hi = (u64)(x | tx) + (y | ty) + (ci || tci);
		u32 val = x + y + ci;
		u32 t = (u32)(lo ^ hi) | tx | ty;
		bool cc = (lo >> 32) != (hi >> 32), vv = (t >> 31) || (tx >> 31) || (ty >> 31);
		bool zz = zflag(val, t);
		if (same) { // a register minus itself
			t = full(tci);
			zz = cc = tci;
			vv = false;
		}
		if (i.s || !write) {
			n = t >> 31;
			z = zz;
			c = cc;
			v = vv;
		}
		if (write)
			setrd(t);
	};
	bool self = i.rn == i.rm && !i.sh && !i.shn;
	auto address = [&](u32 t) {
		if (t)
			report(pc, "an address depends on the secret");
	};
	auto tosub_z = [&](u32 x, u32 tx, u32 y, u32 ty) { // equality is decided by a known difference
		if (z && ((x ^ y) & ~(tx | ty)))
			z = false;
	};
	switch ((Op)i.op) {
	case AND: op2(); logic(a & b, t_and(a, ta, b, tb), true); break;
	case BIC: op2(); logic(a & ~b, t_and(a, ta, ~b, tb), true); break;
	case ORR: op2(); logic(a | b, t_and(~a, ta, ~b, tb), true); break;
	case ORN: op2(); logic(a | ~b, t_and(~a, ta, b, tb), true); break;
	case EOR: op2(); logic(a ^ b, self ? 0 : ta | tb, true); break;
	case MOV: op2(); logic(b, tb, true); break;
	case MVN: op2(); logic(~b, tb, true); break;
	case TST: op2(); logic(a & b, t_and(a, ta, b, tb), false); break;
	case TEQ: op2(); logic(a ^ b, ta | tb, false); break;
	case AND_I: imm(); logic(a & b, ta & b, true); break;
	case BIC_I: imm(); logic(a & ~b, ta & ~b, true); break;
	case ORR_I: imm(); logic(a | b, ta & ~b, true); break;
	case ORN_I: imm(); logic(a | ~b, ta & b, true); break;
	case EOR_I: imm(); logic(a ^ b, ta, true); break;
	case MOV_I: imm(); logic(b, 0, true); break;
	case MVN_I: imm(); logic(~b, 0, true); break;
	case TST_I: imm(); logic(a & b, ta & b, false); break;
	case TEQ_I: imm(); logic(a ^ b, ta, false); break;
	case ADD: op2(); add(a, ta, b, tb, false, false, true, false); break;
	case ADC: op2(); add(a, ta, b, tb, m.C, c, true, false); break;
	case SBC: op2(); add(a, ta, ~b, tb, m.C, c, true, self); break;
	case SUB: op2(); add(a, ta, ~b, tb, true, false, true, self); if (i.s) tosub_z(a, ta, b, tb); break;
	case RSB: op2(); add(~a, ta, b, tb, true, false, true, self); if (i.s) tosub_z(a, ta, b, tb); break;
	case CMN: op2(); add(a, ta, b, tb, false, false, false, false); break;
	case CMP: op2(); add(a, ta, ~b, tb, true, false, false, self); tosub_z(a, ta, b, tb); break;
	case ADD_I: add(a, ta, i.imm, 0, false, false, true, false); break;
	case ADC_I: add(a, ta, i.imm, 0, m.C, c, true, false); break;
	case SBC_I: add(a, ta, ~i.imm, 0, m.C, c, true, false); break;
	case SUB_I: add(a, ta, ~i.imm, 0, true, false, true, false); if (i.s) tosub_z(a, ta, i.imm, 0); break;
	case RSB_I: add(~a, ta, i.imm, 0, true, false, true, false); if (i.s) tosub_z(a, ta, i.imm, 0); break;
	case CMN_I: add(a, ta, i.imm, 0, false, false, false, false); break;
	case CMP_I: add(a, ta, ~i.imm, 0, true, false, false, false); tosub_z(a, ta, i.imm, 0); break;
	case MOVT: T[i.rd] &= 0xffff; break;
	case LSLR: case LSRR: case ASRR: case RORR: {
		u32 k = R[i.rm] & 0xff, t = ta;
		bool cc = c;
		u32 val = a;
		if (T[i.rm] & 0xff) {
			t = full(a | ta);
			if (i.op == ASRR && !a && !ta)
				t = 0;
			val = 0;
			cc = true;
		} else if (k) {
			switch ((Op)i.op) {
			case LSLR:
				cc = k < 32 ? ta >> (32 - k) & 1 : k == 32 ? ta & 1 : 0;
				t = k < 32 ? ta << k : 0;
				val = k < 32 ? a << k : 0;
				break;
			case LSRR:
				cc = k <= 32 ? ta >> (k - 1) & 1 : 0;
				t = k < 32 ? ta >> k : 0;
				val = k < 32 ? a >> k : 0;
				break;
			case ASRR:
				cc = k < 32 ? ta >> (k - 1) & 1 : ta >> 31;
				t = (u32)((int32_t)ta >> (k < 32 ? k : 31));
				val = (u32)((int32_t)a >> (k < 32 ? k : 31));
				break;
			default:
				t = ror(ta, k);
				val = ror(a, k);
				cc = t >> 31;
			}
		}
		tc = cc;
		logic(val, t, true);
		break;
	}
	case B:
		break;
	case BL:
		T[14] = 0;
		break;
	case BX:
	case BLX:
		if (T[i.rm])
			report(pc, "the target of a jump depends on the secret");
		if (i.op == BLX)
			T[14] = 0;
		break;
	case CBZ:
	case CBNZ:
		if (zflag(a, ta))
			report(pc, "a conditional branch depends on the secret");
		break;
	case TBB:
	case TBH: {
		address(ta | T[i.rm]);
		u32 k = i.op == TBB ? 1 : 2;
		if (ld(m, a + k * R[i.rm], k))
			report(pc, "the target of a jump depends on the secret");
		break;
	}
	case LDR: case LDRB: case LDRH: case LDRSB: case LDRSH: case STR: case STRB: case STRH: {
		u32 ad, t;
		switch (i.sh) {
		case 0: ad = a + i.imm; t = ta; break;
		case 1: ad = a + (R[i.rm] << i.shn); t = ta | T[i.rm] << i.shn; break;
		case 2: ad = a + i.imm; t = ta; break;
		case 3: ad = a; t = ta; break;
		default: ad = (R[15] & ~3u) + i.imm; t = 0; break;
		}
		address(t);
		u32 sz = i.op == LDR || i.op == STR ? 4 : i.op == LDRH || i.op == LDRSH || i.op == STRH ? 2 : 1;
		if (i.op == STR || i.op == STRB || i.op == STRH) {
			st(m, ad, sz, T[i.rd]);
			break;
		}
		u32 x = ld(m, ad, sz);
		if (i.op == LDRSB)
			x = (u32)(int32_t)(int8_t)x;
		if (i.op == LDRSH)
			x = (u32)(int32_t)(int16_t)x;
		if (i.rd == 15) {
			if (x)
				report(pc, "the target of a jump depends on the secret");
		} else
			T[i.rd] = x;
		break;
	}
	case LDRD:
	case STRD: {
		u32 base = i.sh == 4 ? R[15] & ~3u : a, ad = i.sh == 3 ? base : base + i.imm;
		address(i.sh == 4 ? 0 : ta);
		if (i.op == LDRD) {
			u32 x = ld(m, ad, 4), y = ld(m, ad + 4, 4);
			T[i.rd] = x;
			T[i.ra] = y;
		} else {
			st(m, ad, 4, T[i.rd]);
			st(m, ad + 4, 4, T[i.ra]);
		}
		break;
	}
	case LDREX: address(ta); T[i.rd] = ld(m, a + i.imm, 4); break;
	case STREX: address(ta); st(m, a + i.imm, 4, T[i.rd]); T[i.rm] = 0; break;
	case LDM: case LDMDB: case STM: case STMDB: {
		u32 len = 4 * __builtin_popcount(i.list);
		u32 q = i.op == LDMDB || i.op == STMDB ? a - len : a;
		address(ta);
		for (int r = 0; r < 16; r++)
			if (i.list >> r & 1) {
				if (i.op == STM || i.op == STMDB)
					st(m, q, 4, T[r]);
				else if (r == 15) {
					if (ld(m, q, 4))
						report(pc, "the target of a jump depends on the secret");
				} else
					T[r] = ld(m, q, 4);
				q += 4;
			}
		break;
	}
	case SXTH: case SXTB: case UXTH: case UXTB: {
		u32 t = ror(T[i.rm], i.shn), x = ror(R[i.rm], i.shn);
		switch ((Op)i.op) {
		case SXTH: t = (u32)(int32_t)(int16_t)t; x = (u32)(int32_t)(int16_t)x; break;
		case SXTB: t = (u32)(int32_t)(int8_t)t; x = (u32)(int32_t)(int8_t)x; break;
		case UXTH: t &= 0xffff; break;
		default: t &= 0xff; break;
		}
		T[i.rd] = i.rn == 15 ? t : low_and_up(t | ta);
		break;
	}
	case SXTB16:
	case UXTB16: {
		u32 t = ror(T[i.rm], i.shn), l, h;
		if (i.op == SXTB16) {
			l = (u16)(int16_t)(int8_t)t;
			h = (u16)(int16_t)(int8_t)(t >> 16);
		} else {
			l = t & 0xff;
			h = t >> 16 & 0xff;
		}
		if (i.rn != 15) {
			l = low_and_up(l | (ta & 0xffff)) & 0xffff;
			h = low_and_up(h | ta >> 16) & 0xffff;
		}
		T[i.rd] = l | h << 16;
		break;
	}
	case REV: T[i.rd] = __builtin_bswap32(T[i.rm]); break;
	case REV16: { u32 t = __builtin_bswap32(T[i.rm]); T[i.rd] = t >> 16 | t << 16; break; }
	case REVSH: T[i.rd] = (u32)(int32_t)(int16_t)__builtin_bswap16((u16)T[i.rm]); break;
	case RBIT: {
		u32 t = T[i.rm], r = 0;
		for (int k = 0; k < 32; k++)
			r |= (t >> k & 1) << (31 - k);
		T[i.rd] = r;
		break;
	}
	case CLZ: T[i.rd] = T[i.rm] ? 0x3f : 0; break;
	case BFI:
	case BFC: {
		u32 k = i.imm >= 32 ? ~0u : (1u << i.imm) - 1, src = i.op == BFC ? 0 : ta;
		T[i.rd] = (T[i.rd] & ~(k << i.shn)) | (src & k) << i.shn;
		break;
	}
	case UBFX: T[i.rd] = ta >> i.shn & (i.imm >= 32 ? ~0u : (1u << i.imm) - 1); break;
	case SBFX: T[i.rd] = (u32)((int32_t)(ta << (32 - i.shn - i.imm)) >> (32 - i.imm)); break;
	case SSAT: case USAT: case SSAT16: case USAT16: T[i.rd] = full(ta); break;
	case SEL: {
		u32 t = 0;
		for (int k = 0; k < 4; k++) {
			u32 mk = 0xffu << 8 * k;
			if (ge >> k & 1)
				t |= (ta | T[i.rm] | (a ^ R[i.rm])) & mk;
			else
				t |= ((m.ge >> k & 1) ? ta : T[i.rm]) & mk;
		}
		T[i.rd] = t;
		break;
	}
	case PKHBT: T[i.rd] = (ta & 0xffff) | ((T[i.rm] << i.shn) & 0xffff0000u); break;
	case PKHTB: T[i.rd] = (ta & 0xffff0000u) | ((u32)((int32_t)T[i.rm] >> (i.shn == 32 ? 31 : i.shn)) & 0xffff); break;
	case MUL: case MLA: case MLS: {
		int lo = prod_low(a, ta, R[i.rm], T[i.rm]);
		u32 t = lo < 32 ? ~0u << lo : 0;
		if (i.op != MUL)
			t = low_and_up(t | T[i.ra]);
		T[i.rd] = t;
		if (i.op == MUL && i.s)
			nz(a * R[i.rm], t);
		break;
	}
	case SMULXY: case SMUAD: case SMUSD: case SMULW: case SMMUL: case USAD8:
		T[i.rd] = full(ta | T[i.rm]);
		break;
	case SMLAXY: case SMLAD: case SMLSD: case SMLAW: case SMMLA: case SMMLS: case USADA8:
		T[i.rd] = full(ta | T[i.rm] | T[i.ra]);
		break;
	case SMULL: case UMULL: {
		int lo = prod_low(a, ta, R[i.rm], T[i.rm]);
		T[i.ra] = lo < 32 ? ~0u << lo : 0;
		T[i.rd] = lo < 32 ? ~0u : lo < 64 ? ~0u << (lo - 32) : 0;
		break;
	}
	case SMLAL: case UMLAL: case UMAAL: case SMLALXY: case SMLALD: case SMLSLD: {
		u32 t = full(ta | T[i.rm] | T[i.rd] | T[i.ra]);
		T[i.rd] = T[i.ra] = t;
		break;
	}
	case SDIV:
	case UDIV:
		if (ta | T[i.rm])
			report(pc, "an operand of a division depends on the secret");
		T[i.rd] = full(ta | T[i.rm]);
		break;
	case PAR: {
		u32 k = i.imm & 7, tm = T[i.rm], t = 0, g = 0;
		if (k == 0 || k == 4) {
			for (int p = 0; p < 4; p++)
				if ((ta | tm) >> 8 * p & 0xff) {
					t |= 0xffu << 8 * p;
					g |= 1u << p;
				}
		} else {
			if (k == 2 || k == 6)
				tm = ror(tm, 16);
			for (int p = 0; p < 2; p++)
				if ((ta | tm) >> 16 * p & 0xffff) {
					t |= 0xffffu << 16 * p;
					g |= 3u << 2 * p;
				}
		}
		if (!(i.imm >> 4 & 3))
			ge = g;
		T[i.rd] = t;
		break;
	}
	case QADD: case QSUB: case QDADD: case QDSUB: T[i.rd] = full(ta | T[i.rm]); break;
	case MRS: T[i.rd] = i.imm < 4 ? (u32)n << 31 | (u32)z << 30 | (u32)c << 29 | (u32)v << 28 : 0; break;
	case MSR:
		if (i.imm < 4) {
			n = ta >> 31;
			z = ta >> 30 & 1;
			c = ta >> 29 & 1;
			v = ta >> 28 & 1;
		}
		break;
	default:
		break;
	}
	T[15] = 0;
}
