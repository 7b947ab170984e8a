#include "emu.h"
#include "guided.h"
#include "emu_ops.h"
#include "taint.h"
#include <elf.h>
#include <fstream>

u64 g_unsupported;
static u32 rd32(const u8 *p) { u32 v; memcpy(&v, p, 4); return v; }
static u16 rd16(const u8 *p) { u16 v; memcpy(&v, p, 2); return v; }

void Machine::add(u32 base, u32 size, int perm, u8 fill)
{
	Mem x;
	x.base = base;
	x.size = size;
	x.data.assign(size, fill);
	x.perm.assign(size, (u8)perm);
	mem.push_back(std::move(x));
}
u8 *Machine::raw(u32 a, u32 n)
{
	Mem *x = find(a, n);
	if (!x)
		throw Fault{strf("internal: no memory at 0x%08x", a)};
	return &x->data[a - x->base];
}
void Machine::setperm(u32 a, u32 n, int perm)
{
	Mem *x = find(a, n);
	if (!x)
		throw Fault{strf("internal: no memory at 0x%08x", a)};
	std::fill(x->perm.begin() + (a - x->base), x->perm.begin() + (a - x->base) + n, (u8)perm);
}
static inline void mix(u64 &t, u64 v)
{
	t = (t ^ v) * 0x9FB21C651E98DF25ull;
	t ^= t >> 29;
}
u8 *Machine::access(u32 a, u32 n, int perm)
{
	Mem *x = find(a, n);
	if (!x)
		throw Fault{strf("%s of %u bytes at 0x%08x: no memory there (pc 0x%08x)", perm == PW ? "write" : "read", n, a, last_pc)};
	u32 o = a - x->base;
	for (u32 i = 0; i < n; i++)
		if (!(x->perm[o + i] & perm))
			throw Fault{strf("%s of %u bytes at 0x%08x outside the permitted memory (pc 0x%08x)", perm == PW ? "write" : "read", n, a, last_pc)};
	mix(trace, ((u64)a << 20) ^ n ^ ((u64)perm << 60));
	return &x->data[o];
}
// the duration of a division depends on the sizes of its operands
void Machine::divided(u32 a, u32 b)
{
	u32 v = (a ? 32 - __builtin_clz(a) : 0) << 8 | (b ? 32 - __builtin_clz(b) : 0);
	mix(trace, (u64)v << 8 | 5);
	if (log)
		log->push_back((u64)v | 1ull << 34);
}
u32 Machine::load(u32 a, u32 n)
{
	mix(trace, ((u64)a << 3) | n);
	if (log)
		log->push_back(a | 1ull << 32);
	if (v6m && (a & (n - 1)))
		throw Fault{strf("unaligned %u-byte read at 0x%08x (pc 0x%08x)", n, a, last_pc)};
	Mem *x = find(a, n);
	if (__builtin_expect(!x, 0)) {
		u32 v = 0;
		if (device && device(*this, a, n, false, v))
			return v;
		throw Fault{strf("read of %u bytes at 0x%08x: no memory there (pc 0x%08x)", n, a, last_pc)};
	}
	u32 o = a - x->base;
	bool ok;
	u32 v;
	if (n == 4) {
		v = rd32(&x->data[o]);
		ok = (rd32(&x->perm[o]) & 0x01010101u) == 0x01010101u;
	} else if (n == 2) {
		v = rd16(&x->data[o]);
		ok = (rd16(&x->perm[o]) & 0x0101u) == 0x0101u;
	} else {
		v = x->data[o];
		ok = x->perm[o] & PR;
	}
	if (__builtin_expect(!ok, 0))
		throw Fault{strf("read of %u bytes at 0x%08x outside the permitted memory (pc 0x%08x)", n, a, last_pc)};
	return v;
}
void Machine::store(u32 a, u32 n, u32 v)
{
	mix(trace, ((u64)a << 3) | n | (1ull << 40));
	if (log)
		log->push_back(a | 1ull << 33);
	if (v6m && (a & (n - 1)))
		throw Fault{strf("unaligned %u-byte write at 0x%08x (pc 0x%08x)", n, a, last_pc)};
	Mem *x = find(a, n);
	if (__builtin_expect(!x, 0)) {
		if (device && device(*this, a, n, true, v))
			return;
		throw Fault{strf("write of %u bytes at 0x%08x: no memory there (pc 0x%08x)", n, a, last_pc)};
	}
	u32 o = a - x->base;
	bool ok;
	if (n == 4)
		ok = (rd32(&x->perm[o]) & 0x02020202u) == 0x02020202u;
	else if (n == 2)
		ok = (rd16(&x->perm[o]) & 0x0202u) == 0x0202u;
	else
		ok = x->perm[o] & PW;
	if (__builtin_expect(!ok, 0))
		throw Fault{strf("write of %u bytes at 0x%08x outside the permitted memory (pc 0x%08x)", n, a, last_pc)};
	memcpy(&x->data[o], &v, n);
}

// ------------------------------------------------------------------ decoding
static u32 expand_imm(u32 i12, bool &carry_valid, bool &carry)
{
	u32 b = i12 & 0xff;
	carry_valid = false;
	carry = false;
	if (!(i12 & 0xc00)) {
		switch ((i12 >> 8) & 3) {
		case 0:
			return b;
		case 1:
			return b | b << 16;
		case 2:
			return b << 8 | b << 24;
		default:
			return b | b << 8 | b << 16 | b << 24;
		}
	}
	u32 rot = i12 >> 7, v = 0x80 | (b & 0x7f);
	v = v >> rot | v << (32 - rot);
	carry_valid = true;
	carry = v >> 31;
	return v;
}
// it-conditions are attached while decoding the IT instruction itself
Insn Machine::decode(u32 pc, u32 &itcond, int &itleft)
{
	Insn i;
	Mem *x = find(pc, 2);
	u32 h = rd16(&x->data[pc - x->base]);
	bool in_it = itleft > 0;
	u8 cond = in_it ? (itcond & 0xf) : 14;
	i.cond = cond;
	u8 sf = in_it ? 0 : 1;
	auto R3 = [&](int b) { return (u8)((h >> b) & 7); };
	auto set = [&](u8 op, u8 rd, u8 rn, u8 rm, u8 s, u32 imm) {
		i.op = op;
		i.rd = rd;
		i.rn = rn;
		i.rm = rm;
		i.s = s;
		i.imm = imm;
	};
	if ((h >> 11) < 0x1d) {
		switch (h >> 12) {
		case 0:
		case 1:
			if ((h >> 11) < 3) {
				set(MOV, R3(0), 0, R3(3), sf, 0);
				i.sh = (h >> 11) & 3;
				i.shn = (h >> 6) & 31;
				if (i.sh && !i.shn)
					i.shn = 32;
			} else {
				bool im = h & 0x400, sub = h & 0x200;
				if (im)
					set(sub ? SUB_I : ADD_I, R3(0), R3(3), 0, sf, (h >> 6) & 7);
				else
					set(sub ? SUB : ADD, R3(0), R3(3), R3(6), sf, 0);
			}
			return i;
		case 2:
		case 3: {
			u8 r = R3(8);
			switch ((h >> 11) & 3) {
			case 0:
				set(MOV_I, r, 0, 0, sf, h & 0xff);
				i.ra = 2; // carry unchanged
				return i;
			case 1:
				set(CMP_I, 0, r, 0, 1, h & 0xff);
				return i;
			case 2:
				set(ADD_I, r, r, 0, sf, h & 0xff);
				return i;
			default:
				set(SUB_I, r, r, 0, sf, h & 0xff);
				return i;
			}
		}
		case 4:
			if (!(h & 0x800)) {
				if (!(h & 0x400)) {
					u8 d = R3(0), m_ = R3(3);
					static const u8 ops[16] = {AND, EOR, LSLR, LSRR, ASRR, ADC, SBC, RORR, TST, RSB_I, CMP, CMN, ORR, MUL, BIC, MVN};
					u8 op = ops[(h >> 6) & 15];
					if (op == RSB_I)
						set(RSB_I, d, m_, 0, sf, 0);
					else if (op == TST || op == CMP || op == CMN)
						set(op, 0, d, m_, 1, 0);
					else if (op == MUL)
						set(MUL, d, d, m_, sf, 0);
					else
						set(op, d, d, m_, sf, 0);
				} else {
					u8 d = (u8)((h & 7) | ((h >> 4) & 8)), m_ = (h >> 3) & 15;
					switch ((h >> 8) & 3) {
					case 0:
						set(ADD, d, d, m_, 0, 0);
						break;
					case 1:
						set(CMP, 0, d, m_, 1, 0);
						break;
					case 2:
						set(MOV, d, 0, m_, 0, 0);
						break;
					default:
						set(h & 0x80 ? BLX : BX, 0, 0, m_, 0, 0);
					}
				}
				return i;
			}
			set(LDR, R3(8), 15, 0, 0, (h & 0xff) * 4);
			i.sh = 4;
			return i;
		case 5: {
			static const u8 ops[8] = {STR, STRH, STRB, LDRSB, LDR, LDRH, LDRB, LDRSH};
			set(ops[(h >> 9) & 7], R3(0), R3(3), R3(6), 0, 0);
			i.sh = 1;
			return i;
		}
		case 6:
			set(h & 0x800 ? LDR : STR, R3(0), R3(3), 0, 0, ((h >> 6) & 31) * 4);
			return i;
		case 7:
			set(h & 0x800 ? LDRB : STRB, R3(0), R3(3), 0, 0, (h >> 6) & 31);
			return i;
		case 8:
			set(h & 0x800 ? LDRH : STRH, R3(0), R3(3), 0, 0, ((h >> 6) & 31) * 2);
			return i;
		case 9:
			set(h & 0x800 ? LDR : STR, R3(8), 13, 0, 0, (h & 0xff) * 4);
			return i;
		case 10:
			if (h & 0x800)
				set(ADD_I, R3(8), 13, 0, 0, (h & 0xff) * 4);
			else
				set(MOV_I, R3(8), 0, 0, 0, ((pc + 4) & ~3u) + (h & 0xff) * 4);
			return i;
		case 11:
			if ((h & 0xff00) == 0xb000) {
				set(h & 0x80 ? SUB_I : ADD_I, 13, 13, 0, 0, (h & 0x7f) * 4);
				return i;
			}
			if ((h & 0xf500) == 0xb100) {
				if (v6m)
					break;
				set(h & 0x800 ? CBNZ : CBZ, 0, R3(0), 0, 0, pc + 4 + (((h >> 3) & 31) << 1 | ((h >> 9) & 1) << 6));
				return i;
			}
			switch (h >> 8) {
			case 0xb2: {
				static const u8 ops[4] = {SXTH, SXTB, UXTH, UXTB};
				set(ops[(h >> 6) & 3], R3(0), 15, R3(3), 0, 0);
				return i;
			}
			case 0xb4:
			case 0xb5:
				set(STMDB, 0, 13, 0, 1, 0);
				i.list = (h & 0xff) | (h & 0x100 ? 1 << 14 : 0);
				return i;
			case 0xb6:
				set(CPS, 0, 0, 0, 0, h & 0x1f);
				return i;
			case 0xba: {
				static const u8 ops[4] = {REV, REV16, UNDEF, REVSH};
				set(ops[(h >> 6) & 3], R3(0), 0, R3(3), 0, 0);
				return i;
			}
			case 0xbc:
			case 0xbd:
				set(LDM, 0, 13, 0, 1, 0);
				i.list = (h & 0xff) | (h & 0x100 ? 1 << 15 : 0);
				return i;
			case 0xbe:
				set(BKPT, 0, 0, 0, 0, h & 0xff);
				return i;
			case 0xbf:
				if (!(h & 0xf)) {
					set(NOP, 0, 0, 0, 0, 0);
					return i;
				}
				if (v6m)
					break;
				set(ITOP, 0, 0, 0, 0, h & 0xff);
				return i;
			}
			break;
		case 12:
			i.list = h & 0xff;
			if (h & 0x800)
				set(LDM, 0, R3(8), 0, !(i.list >> R3(8) & 1), 0);
			else
				set(STM, 0, R3(8), 0, 1, 0);
			return i;
		case 13:
			if (((h >> 8) & 15) == 15) {
				set(SVC, 0, 0, 0, 0, h & 0xff);
				return i;
			}
			if (((h >> 8) & 15) == 14)
				break;
			set(B, 0, 0, 0, 0, pc + 4 + (u32)((int32_t)(int8_t)(h & 0xff) * 2));
			i.cond = (h >> 8) & 15;
			return i;
		case 14:
			set(B, 0, 0, 0, 0, pc + 4 + (u32)((int32_t)((h & 0x7ff) << 21) >> 20));
			return i;
		}
		i.op = UNDEF;
		return i;
	}
	x = find(pc + 2, 2);
	if (!x) {
		i.op = UNDEF;
		return i;
	}
	u32 g = rd16(&x->data[pc + 2 - x->base]);
	i.len = 4;
	u32 op2 = (h >> 4) & 0x7f;
	u8 rn = h & 15, rd = (g >> 8) & 15, rm = g & 15, rt = g >> 12;
	bool S = h & 0x10;
	if ((h >> 11) == 0x1e && (g & 0x8000)) { // branches, control
		u32 sgn = (h >> 10) & 1, j1 = (g >> 13) & 1, j2 = (g >> 11) & 1;
		u32 i1 = !(j1 ^ sgn), i2 = !(j2 ^ sgn);
		u32 off = sgn << 24 | i1 << 23 | i2 << 22 | (h & 0x3ff) << 12 | (g & 0x7ff) << 1;
		off = (u32)((int32_t)(off << 7) >> 7);
		if ((g & 0xd000) == 0xd000) {
			set(BL, 0, 0, 0, 0, pc + 4 + off);
			return i;
		}
		if ((g & 0xd000) == 0x9000 && !v6m) {
			set(B, 0, 0, 0, 0, pc + 4 + off);
			return i;
		}
		if ((g & 0xd000) == 0x8000) {
			u32 c = (h >> 6) & 15;
			if (c < 14) {
				if (v6m) {
					i.op = UNDEF;
					return i;
				}
				u32 o = sgn << 20 | j2 << 19 | j1 << 18 | (h & 0x3f) << 12 | (g & 0x7ff) << 1;
				o = (u32)((int32_t)(o << 11) >> 11);
				set(B, 0, 0, 0, 0, pc + 4 + o);
				i.cond = c;
				return i;
			}
			if ((h & 0xffe0) == 0xf380) {
				set(MSR, 0, rn, 0, 0, g & 0xff);
				return i;
			}
			if ((h & 0xffe0) == 0xf3e0) {
				set(MRS, rd, 0, 0, 0, g & 0xff);
				return i;
			}
			if ((h & 0xfff0) == 0xf3b0 || (h & 0xfff0) == 0xf3a0) { // barriers, hints
				set(NOP, 0, 0, 0, 0, 0);
				return i;
			}
		}
		i.op = UNDEF;
		return i;
	}
	if (v6m) {
		i.op = UNDEF;
		return i;
	}
	static const u8 dp[16] = {AND, BIC, ORR, ORN, EOR, UNDEF, UNDEF, UNDEF, ADD, UNDEF, ADC, SBC, UNDEF, SUB, RSB, UNDEF};
	auto dpalias = [&](u8 op, bool imm) -> u8 {
		u8 r = op;
		if (rd == 15 && S) {
			if (op == AND)
				r = TST;
			else if (op == EOR)
				r = TEQ;
			else if (op == ADD)
				r = CMN;
			else if (op == SUB)
				r = CMP;
		}
		if (rn == 15) {
			if (op == ORR)
				r = MOV;
			else if (op == ORN)
				r = MVN;
		}
		return imm ? (u8)(r + (AND_I - AND)) : r;
	};
	if ((h >> 11) == 0x1d) {
		if ((op2 & 0x64) == 0) { // load/store multiple
			bool L = h & 0x10, W = h & 0x20;
			u32 mode = (h >> 7) & 3; // 1: increment after, 2: decrement before
			if (mode == 1)
				set(L ? LDM : STM, 0, rn, 0, W, 0);
			else if (mode == 2)
				set(L ? LDMDB : STMDB, 0, rn, 0, W, 0);
			else
				i.op = UNDEF;
			i.list = g;
			return i;
		}
		if ((op2 & 0x64) == 4) {
			u32 p = (h >> 8) & 1, u = (h >> 7) & 1, w = (h >> 5) & 1, l = (h >> 4) & 1;
			if (!p && !w) {
				if ((h & 0xfff0) == 0xe8d0 && (g & 0xffe0) == 0xf000) {
					set(g & 0x10 ? TBH : TBB, 0, rn, rm, 0, 0);
					return i;
				}
				if ((h & 0xfff0) == 0xe850) {
					set(LDREX, rt, rn, 0, 0, (g & 0xff) * 4);
					return i;
				}
				if ((h & 0xfff0) == 0xe840) {
					set(STREX, rt, rn, 0, 0, (g & 0xff) * 4);
					i.rm = rd;
					return i;
				}
				i.op = UNDEF;
				return i;
			}
			u32 off = (g & 0xff) * 4;
			if (!u)
				off = -off;
			set(l ? LDRD : STRD, rt, rn, 0, 0, off);
			i.ra = rd;
			i.sh = rn == 15 ? 4 : !p ? 3 : w ? 2 : 0;
			return i;
		}
		if ((op2 & 0x60) == 0x20) { // shifted register
			u32 op = (h >> 5) & 15, t = (g >> 4) & 3, n = ((g >> 12) & 7) << 2 | ((g >> 6) & 3);
			if (op == 6) {
				set(t & 2 ? PKHTB : PKHBT, rd, rn, rm, 0, 0);
				i.shn = n;
				if ((t & 2) && !n)
					i.shn = 32;
				return i;
			}
			if (dp[op] == UNDEF) {
				i.op = UNDEF;
				return i;
			}
			set(dpalias(dp[op], false), rd, rn, rm, S, 0);
			i.sh = t;
			i.shn = n;
			if ((t == 1 || t == 2) && !n)
				i.shn = 32;
			if (t == 3 && !n)
				i.sh = 4; // RRX
			return i;
		}
		i.op = UNDEF; // coprocessor
		return i;
	}
	if ((h >> 11) == 0x1e) {
		u32 i12 = ((h >> 10) & 1) << 11 | ((g >> 12) & 7) << 8 | (g & 0xff);
		if (!(h & 0x200)) { // modified immediate
			u32 op = (h >> 5) & 15;
			if (dp[op] == UNDEF) {
				i.op = UNDEF;
				return i;
			}
			bool cv, c;
			u32 v = expand_imm(i12, cv, c);
			set(dpalias(dp[op], true), rd, rn, 0, S, v);
			i.ra = cv ? (c ? 1 : 0) : 2; // carry out of the immediate
			return i;
		}
		u32 op = (h >> 4) & 0x1f;
		u32 i16 = (h & 15) << 12 | i12;
		u32 lsb = ((g >> 12) & 7) << 2 | ((g >> 6) & 3), wm = g & 0x1f;
		switch (op) {
		case 0:
			if (rn == 15)
				set(MOV_I, rd, 0, 0, 0, ((pc + 4) & ~3u) + i12);
			else
				set(ADD_I, rd, rn, 0, 0, i12);
			return i;
		case 10:
			if (rn == 15)
				set(MOV_I, rd, 0, 0, 0, ((pc + 4) & ~3u) - i12);
			else
				set(SUB_I, rd, rn, 0, 0, i12);
			return i;
		case 4:
			set(MOV_I, rd, 0, 0, 0, i16);
			return i;
		case 12:
			set(MOVT, rd, 0, 0, 0, i16);
			return i;
		case 16:
		case 18:
		case 24:
		case 26: {
			bool us = op >= 24, asr = op & 2;
			if (asr && !lsb)
				set(us ? USAT16 : SSAT16, rd, rn, 0, 0, wm & 15);
			else
				set(us ? USAT : SSAT, rd, rn, 0, 0, wm);
			i.sh = asr ? 2 : 0;
			i.shn = lsb;
			if (!us)
				i.imm++;
			return i;
		}
		case 20:
			set(SBFX, rd, rn, 0, 0, wm + 1);
			i.shn = lsb;
			return i;
		case 28:
			set(UBFX, rd, rn, 0, 0, wm + 1);
			i.shn = lsb;
			return i;
		case 22:
			set(rn == 15 ? BFC : BFI, rd, rn, 0, 0, wm - lsb + 1);
			i.shn = lsb;
			return i;
		}
		i.op = UNDEF;
		return i;
	}
	// 0x1f
	if ((op2 & 0x71) == 0 || (op2 & 0x61) == 1) { // single loads and stores
		u32 size = (h >> 5) & 3;
		bool l = h & 0x10, sg = h & 0x100;
		static const u8 ld[4] = {LDRB, LDRH, LDR, UNDEF}, lds[4] = {LDRSB, LDRSH, UNDEF, UNDEF}, st[4] = {STRB, STRH, STR, UNDEF};
		u8 op = l ? (sg ? lds[size] : ld[size]) : (sg ? (u8)UNDEF : st[size]);
		if (l && rt == 15 && size != 2) { // preload hint
			set(NOP, 0, 0, 0, 0, 0);
			return i;
		}
		if (rn == 15) {
			if (!l) {
				i.op = UNDEF;
				return i;
			}
			set(op, rt, 15, 0, 0, h & 0x80 ? g & 0xfff : -(g & 0xfff));
			i.sh = 4;
			return i;
		}
		if (h & 0x80) {
			set(op, rt, rn, 0, 0, g & 0xfff);
			return i;
		}
		if (g & 0x800) {
			u32 off = g & 0xff;
			if (!(g & 0x200))
				off = -off;
			set(op, rt, rn, 0, 0, off);
			bool p = g & 0x400, w = g & 0x100;
			if (p && !w)
				i.sh = 0; // negative offset
			else if (p)
				i.sh = 2;
			else
				i.sh = 3;
			if (p && !w && (g & 0x200))
				i.sh = 0; // unprivileged form: same effect here
			if (!p && !w)
				i.op = UNDEF;
			return i;
		}
		if ((g & 0xfc0) == 0) {
			set(op, rt, rn, rm, 0, 0);
			i.sh = 1;
			i.shn = (g >> 4) & 3;
			return i;
		}
		i.op = UNDEF;
		return i;
	}
	if ((op2 & 0x70) == 0x20) {
		u32 o1 = (h >> 4) & 15, o2 = (g >> 4) & 15;
		if ((g & 0xf000) != 0xf000) {
			i.op = UNDEF;
			return i;
		}
		if (o2 == 0 && o1 < 8) {
			static const u8 ops[4] = {LSLR, LSRR, ASRR, RORR};
			set(ops[o1 >> 1], rd, rn, rm, o1 & 1, 0);
			return i;
		}
		if ((o2 & 8) && o1 < 6) {
			static const u8 ops[6] = {SXTH, UXTH, SXTB16, UXTB16, SXTB, UXTB};
			set(ops[o1], rd, rn, rm, 0, 0);
			i.shn = (o2 & 3) * 8;
			return i;
		}
		if ((o1 & 8) && !(o2 & 8)) {
			u32 k = o1 & 7; // 0 add8 1 add16 2 asx 4 sub8 5 sub16 6 sax
			if (k == 3 || k == 7 || (o2 & 3) == 3) {
				i.op = UNDEF;
				return i;
			}
			set(PAR, rd, rn, rm, 0, k | (o2 & 7) << 4);
			return i;
		}
		if ((o1 & 12) == 8 && (o2 & 12) == 8) {
			static const u8 t0[4] = {QADD, QDADD, QSUB, QDSUB}, t1[4] = {REV, REV16, RBIT, REVSH};
			if (o1 == 8)
				set(t0[o2 & 3], rd, rn, rm, 0, 0);
			else if (o1 == 9)
				set(t1[o2 & 3], rd, rn, rm, 0, 0);
			else if (o1 == 10 && o2 == 8)
				set(SEL, rd, rn, rm, 0, 0);
			else if (o1 == 11 && o2 == 8)
				set(CLZ, rd, rn, rm, 0, 0);
			else
				i.op = UNDEF;
			return i;
		}
		i.op = UNDEF;
		return i;
	}
	if ((op2 & 0x78) == 0x30) {
		u32 o1 = (h >> 4) & 7, o2 = (g >> 4) & 15;
		bool acc = rt != 15;
		u8 op = UNDEF;
		switch (o1) {
		case 0:
			op = o2 == 0 ? (acc ? MLA : MUL) : o2 == 1 ? (u8)MLS : (u8)UNDEF;
			break;
		case 1:
			op = acc ? SMLAXY : SMULXY;
			break;
		case 2:
			op = acc ? SMLAD : SMUAD;
			break;
		case 3:
			op = acc ? SMLAW : SMULW;
			break;
		case 4:
			op = acc ? SMLSD : SMUSD;
			break;
		case 5:
			op = acc ? SMMLA : SMMUL;
			break;
		case 6:
			op = SMMLS;
			break;
		case 7:
			op = acc ? USADA8 : USAD8;
			break;
		}
		set(op, rd, rn, rm, 0, o2);
		i.ra = rt;
		return i;
	}
	if ((op2 & 0x78) == 0x38) {
		u32 o1 = (h >> 4) & 7, o2 = (g >> 4) & 15;
		u8 op = UNDEF;
		if (o1 == 0 && !o2)
			op = SMULL;
		else if (o1 == 1 && o2 == 15)
			op = SDIV;
		else if (o1 == 2 && !o2)
			op = UMULL;
		else if (o1 == 3 && o2 == 15)
			op = UDIV;
		else if (o1 == 4)
			op = !o2 ? (u8)SMLAL : (o2 & 12) == 8 ? (u8)SMLALXY : (o2 & 14) == 12 ? (u8)SMLALD : (u8)UNDEF;
		else if (o1 == 5 && (o2 & 14) == 12)
			op = SMLSLD;
		else if (o1 == 6)
			op = !o2 ? (u8)UMLAL : o2 == 6 ? (u8)UMAAL : (u8)UNDEF;
		set(op, rd, rn, rm, 0, o2);
		i.ra = rt;
		return i;
	}
	i.op = UNDEF;
	return i;
}
Insn *Machine::fetch(u32 pc)
{
	for (auto &c : code)
		if (pc - c.base < c.size) {
			Insn *p = &c.insn[(pc - c.base) >> 1];
			if (p->op)
				return p;
			Mem *x = find(pc, 2);
			if (!(x->perm[pc - x->base] & PX))
				break;
			u32 it = 14;
			int left = 0;
			*p = decode(pc, it, left);
			if (hooks.count(pc))
				p->op = HOOK;
			if (p->op == ITOP) { // decode the block now, with its conditions
				u32 first = p->imm >> 4, mask = p->imm & 15;
				int n = 4 - __builtin_ctz(mask);
				u32 a = pc + 2;
				for (int k = 0; k < n; k++) {
					u32 cnd = k == 0 ? first : (first & ~1u) | ((mask >> (4 - k)) & 1);
					int l = 1;
					if (a - c.base >= c.size)
						break;
					Insn *q = &c.insn[(a - c.base) >> 1];
					*q = decode(a, cnd, l);
					if (q->op == B && q->cond != cnd)
						q->cond = cnd;
					a += q->len;
				}
			}
			return p;
		}
	for (auto &c : code)
		if (pc - c.base < c.size)
			throw Fault{strf("jump to 0x%08x, which is not code (from pc 0x%08x)", pc, last_pc)};
	Mem *x = find(pc, 2);
	if (!x || !(x->perm[pc - x->base] & PX))
		throw Fault{strf("jump to 0x%08x, which is not code (from pc 0x%08x)", pc, last_pc)};
	Code c;
	c.base = x->base;
	c.size = x->size & ~1u;
	c.insn.resize(c.size / 2 + 1);
	code.push_back(std::move(c));
	return fetch(pc);
}
static inline u32 ror32(u32 v, u32 n)
{
	n &= 31;
	return n ? v >> n | v << (32 - n) : v;
}
static inline int32_t sat(int64_t v, int bits)
{
	int64_t hi = (1ll << (bits - 1)) - 1, lo = -hi - 1;
	return (int32_t)(v > hi ? hi : v < lo ? lo : v);
}
static inline u32 usat(int64_t v, int bits)
{
	int64_t hi = (1ll << bits) - 1;
	return (u32)(v > hi ? hi : v < 0 ? 0 : v);
}
static u32 parallel(u32 a, u32 b, u32 k, u32 pre, u32 &ge)
{
	// pre: 0 S 1 Q 2 SH 4 U 5 UQ 6 UH
	bool uns = pre & 4;
	u32 kind = pre & 3, r = 0;
	u32 g = 0;
	auto lane = [&](int64_t v, int bits, bool sub, int pos) {
		u32 mask = bits == 16 ? 0xffff : 0xff;
		u32 o;
		if (kind == 1)
			o = uns ? usat(v, bits) : (u32)sat(v, bits);
		else if (kind == 2)
			o = (u32)(v >> 1);
		else {
			o = (u32)v;
			bool f = uns ? (sub ? v >= 0 : v >= (1ll << bits)) : v >= 0;
			if (f)
				g |= (bits == 16 ? 3u : 1u) << (bits == 16 ? pos * 2 : pos);
		}
		r |= (o & mask) << (pos * bits);
	};
	if (k == 0 || k == 4)
		for (int p = 0; p < 4; p++) {
			int64_t x = uns ? (int64_t)((a >> 8 * p) & 0xff) : (int64_t)(int8_t)(a >> 8 * p);
			int64_t y = uns ? (int64_t)((b >> 8 * p) & 0xff) : (int64_t)(int8_t)(b >> 8 * p);
			lane(k == 4 ? x - y : x + y, 8, k == 4, p);
		}
	else {
		int64_t x0 = uns ? (int64_t)(a & 0xffff) : (int64_t)(int16_t)a, x1 = uns ? (int64_t)(a >> 16) : (int64_t)(int16_t)(a >> 16);
		int64_t y0 = uns ? (int64_t)(b & 0xffff) : (int64_t)(int16_t)b, y1 = uns ? (int64_t)(b >> 16) : (int64_t)(int16_t)(b >> 16);
		switch (k) {
		case 1:
			lane(x0 + y0, 16, false, 0);
			lane(x1 + y1, 16, false, 1);
			break;
		case 5:
			lane(x0 - y0, 16, true, 0);
			lane(x1 - y1, 16, true, 1);
			break;
		case 2:
			lane(x0 - y1, 16, true, 0);
			lane(x1 + y0, 16, false, 1);
			break;
		case 6:
			lane(x0 + y1, 16, false, 0);
			lane(x1 - y0, 16, true, 1);
			break;
		}
	}
	if (kind == 0)
		ge = g;
	return r;
}
void Machine::take_irq(u32 &pc)
{
	irqs++;
	u32 sp = R[13] & ~7u;
	u32 xpsr = (u32)N << 31 | (u32)Z << 30 | (u32)C << 29 | (u32)V << 28 | 1u << 24 | (R[13] & 4 ? 1u << 9 : 0);
	sp -= 32;
	u32 fr[8] = {R[0], R[1], R[2], R[3], R[12], R[14], pc, xpsr};
	for (int i = 0; i < 8; i++)
		store(sp + 4 * i, 4, fr[i]);
	R[13] = sp;
	if (sp < min_sp)
		min_sp = sp;
	R[14] = 0xfffffff9u;
	in_irq = true;
	pc = irq_vector;
}
void Machine::exc_return(u32)
{
	u32 sp = R[13];
	u32 fr[8];
	for (int i = 0; i < 8; i++)
		fr[i] = load(sp + 4 * i, 4);
	R[0] = fr[0];
	R[1] = fr[1];
	R[2] = fr[2];
	R[3] = fr[3];
	R[12] = fr[4];
	R[14] = fr[5];
	u32 x = fr[7];
	N = x >> 31;
	Z = x >> 30 & 1;
	C = x >> 29 & 1;
	V = x >> 28 & 1;
	R[13] = sp + 32 + (x & 0x200 ? 4 : 0);
	R[15] = fr[6];
	in_irq = false;
}
void Machine::run(u32 pc, u32 stop)
{
	pc &= ~1u;
	stop &= ~1u;
	Code *cc = nullptr;
	u32 fa = 0, fb = 0; // what the flags compared last
	while (pc != stop) {
		if (__builtin_expect(steps >= irq_step, 0)) {
			irq_step = ~0ull;
			on_timer(*this);
		}
		if (__builtin_expect(irq_pending, 0) && !primask && !in_irq) {
			irq_pending = false;
			take_irq(pc);
		}
		Insn *ip;
		if (cc && pc - cc->base < cc->size && cc->insn[(pc - cc->base) >> 1].op)
			ip = &cc->insn[(pc - cc->base) >> 1];
		else {
			ip = fetch(pc);
			for (auto &c : code)
				if (pc - c.base < c.size)
					cc = &c;
		}
		const Insn &i = *ip;
		last_pc = pc;
		if (log)
			log->push_back(pc);
		if (++steps > limit)
			throw Fault{strf("did not finish within %llu instructions", (unsigned long long)limit)};
		R[15] = pc + 4;
		u32 next = pc + i.len;
		if (i.cond != 14) {
			bool t;
			switch (i.cond >> 1) {
			case 0: t = Z; break;
			case 1: t = C; break;
			case 2: t = N; break;
			case 3: t = V; break;
			case 4: t = C && !Z; break;
			case 5: t = N == V; break;
			case 6: t = !Z && N == V; break;
			default: t = true; break;
			}
			if (i.cond & 1 && i.cond != 15)
				t = !t;
			if (i.op == B)
				mix(trace, (u64)pc << 1 | t); // conditional branch
			if (__builtin_expect(g_cmplog != nullptr, 0))
				g_cmplog->add(pc, fa, fb, 4);
			if (__builtin_expect(taint != nullptr, 0))
				taint->step(*this, i, pc, t);
			if (!t) {
				pc = next;
				continue;
			}
		} else if (__builtin_expect(taint != nullptr, 0))
			taint->step(*this, i, pc, true);
#define NZ(v) (N = (v) >> 31, Z = (v) == 0, fa = (v), fb = 0)
		auto shifted = [&](u32 v, bool &c) -> u32 {
			u32 n = i.shn;
			switch (i.sh) {
			case 0:
				if (!n)
					return v;
				c = v >> (32 - n) & 1;
				return v << n;
			case 1:
				c = v >> (n - 1) & 1;
				return n == 32 ? 0 : v >> n;
			case 2:
				c = v >> (n - 1) & 1;
				return n == 32 ? (u32)((int32_t)v >> 31) : (u32)((int32_t)v >> n);
			case 3:
				v = ror32(v, n);
				c = v >> 31;
				return v;
			default: {
				bool nc = v & 1;
				v = v >> 1 | (u32)c << 31;
				c = nc;
				return v;
			}
			}
		};
		auto addc = [&](u32 a, u32 b, bool cin, bool s) -> u32 {
			u64 w = (u64)a + b + cin;
			u32 r = (u32)w;
			if (s) {
				C = w >> 32;
				V = (~(a ^ b) & (a ^ r)) >> 31;
				NZ(r);
				fa = a, fb = cin ? ~b : 0u - b; // a - fb decides
			}
			return r;
		};
		auto setrd = [&](u32 v) {
			if (__builtin_expect(i.rd == 15, 0)) {
				next = v & ~1u;
				mix(trace, (u64)next << 8 | 3);
			} else
				R[i.rd] = v;
		};
		auto logic = [&](u32 v, bool c) {
			if (i.s) {
				NZ(v);
				C = c;
			}
			setrd(v);
		};
		auto icarry = [&] { return i.ra == 2 ? C : (bool)i.ra; };
		auto branch_x = [&](u32 v) {
			mix(trace, (u64)v << 8 | 1);
			if ((v & 0xf0000000u) == 0xf0000000u) {
				if (in_irq) {
					exc_return(v);
					next = R[15];
					return;
				}
				next = v & ~1u;
				if (next != stop)
					throw Fault{strf("return to 0x%08x (from pc 0x%08x)", v, pc)};
				return;
			}
			if (!(v & 1))
				throw Fault{strf("branch to 0x%08x leaves Thumb state (pc 0x%08x)", v, pc)};
			next = v & ~1u;
		};
		auto dp2 = [&](bool &c) { c = C; return shifted(R[i.rm], c); };
		bool c;
		u32 v;
		switch ((Op)i.op) {
		case AND: v = dp2(c); logic(R[i.rn] & v, c); break;
		case BIC: v = dp2(c); logic(R[i.rn] & ~v, c); break;
		case ORR: v = dp2(c); logic(R[i.rn] | v, c); break;
		case ORN: v = dp2(c); logic(R[i.rn] | ~v, c); break;
		case EOR: v = dp2(c); logic(R[i.rn] ^ v, c); break;
		case MOV: v = dp2(c); logic(v, c); break;
		case MVN: v = dp2(c); logic(~v, c); break;
		case TST: v = dp2(c); v &= R[i.rn]; NZ(v); C = c; break;
		case TEQ: v = dp2(c); v ^= R[i.rn]; NZ(v); C = c; break;
		case ADD: v = dp2(c); setrd(addc(R[i.rn], v, 0, i.s)); break;
		case ADC: v = dp2(c); setrd(addc(R[i.rn], v, C, i.s)); break;
		case SBC: v = dp2(c); setrd(addc(R[i.rn], ~v, C, i.s)); break;
		case SUB: v = dp2(c); setrd(addc(R[i.rn], ~v, 1, i.s)); break;
		case RSB: v = dp2(c); setrd(addc(~R[i.rn], v, 1, i.s)); break;
		case CMN: v = dp2(c); addc(R[i.rn], v, 0, true); break;
		case CMP: v = dp2(c); addc(R[i.rn], ~v, 1, true); break;
		case AND_I: c = icarry(); logic(R[i.rn] & i.imm, c); break;
		case BIC_I: c = icarry(); logic(R[i.rn] & ~i.imm, c); break;
		case ORR_I: c = icarry(); logic(R[i.rn] | i.imm, c); break;
		case ORN_I: c = icarry(); logic(R[i.rn] | ~i.imm, c); break;
		case EOR_I: c = icarry(); logic(R[i.rn] ^ i.imm, c); break;
		case MOV_I: c = icarry(); logic(i.imm, c); break;
		case MVN_I: c = icarry(); logic(~i.imm, c); break;
		case TST_I: c = icarry(); v = R[i.rn] & i.imm; NZ(v); C = c; break;
		case TEQ_I: c = icarry(); v = R[i.rn] ^ i.imm; NZ(v); C = c; break;
		case ADD_I: setrd(addc(R[i.rn], i.imm, 0, i.s)); break;
		case ADC_I: setrd(addc(R[i.rn], i.imm, C, i.s)); break;
		case SBC_I: setrd(addc(R[i.rn], ~i.imm, C, i.s)); break;
		case SUB_I: setrd(addc(R[i.rn], ~i.imm, 1, i.s)); break;
		case RSB_I: setrd(addc(~R[i.rn], i.imm, 1, i.s)); break;
		case CMN_I: addc(R[i.rn], i.imm, 0, true); break;
		case CMP_I: addc(R[i.rn], ~i.imm, 1, true); break;
		case MOVT: R[i.rd] = (R[i.rd] & 0xffff) | i.imm << 16; break;
		case LSLR: {
			u32 a = R[i.rn], n = R[i.rm] & 0xff;
			c = C;
			if (n) {
				c = n <= 32 ? (n == 32 ? a & 1 : a >> (32 - n) & 1) : 0;
				a = n < 32 ? a << n : 0;
			}
			logic(a, c);
			break;
		}
		case LSRR: {
			u32 a = R[i.rn], n = R[i.rm] & 0xff;
			c = C;
			if (n) {
				c = n <= 32 ? a >> (n - 1) & 1 : 0;
				a = n < 32 ? a >> n : 0;
			}
			logic(a, c);
			break;
		}
		case ASRR: {
			u32 a = R[i.rn], n = R[i.rm] & 0xff;
			c = C;
			if (n) {
				u32 k = n > 32 ? 32 : n;
				c = k == 32 ? a >> 31 : a >> (k - 1) & 1;
				a = (u32)((int32_t)a >> (k == 32 ? 31 : k));
			}
			logic(a, c);
			break;
		}
		case RORR: {
			u32 a = R[i.rn], n = R[i.rm] & 0xff;
			c = C;
			if (n) {
				a = ror32(a, n);
				c = a >> 31;
			}
			logic(a, c);
			break;
		}
		case B:
			next = i.imm;
			break;
		case BL:
			R[14] = next | 1;
			next = i.imm;
			break;
		case BX:
			branch_x(R[i.rm]);
			break;
		case BLX: {
			u32 t = R[i.rm];
			R[14] = next | 1;
			branch_x(t);
			break;
		}
		case CBZ:
		case CBNZ: {
			bool t = (R[i.rn] == 0) == (i.op == CBZ);
			if (__builtin_expect(g_cmplog != nullptr, 0))
				g_cmplog->add(pc, R[i.rn], 0, 4);
			mix(trace, (u64)pc << 1 | t);
			if (t)
				next = i.imm;
			break;
		}
		case TBB:
			next = pc + 4 + 2 * load(R[i.rn] + R[i.rm], 1);
			mix(trace, next);
			break;
		case TBH:
			next = pc + 4 + 2 * load(R[i.rn] + 2 * R[i.rm], 2);
			mix(trace, next);
			break;
		case LDR: case LDRB: case LDRH: case LDRSB: case LDRSH: case STR: case STRB: case STRH: {
			u32 a, wb = 0;
			bool dowb = false;
			switch (i.sh) {
			case 0: a = R[i.rn] + i.imm; break;
			case 1: a = R[i.rn] + (R[i.rm] << i.shn); break;
			case 2: a = wb = R[i.rn] + i.imm; dowb = true; break;
			case 3: a = R[i.rn]; wb = a + i.imm; dowb = true; break;
			default: a = (R[15] & ~3u) + i.imm; break;
			}
			if (dowb && i.rn == 13 && wb < min_sp)
				min_sp = wb;
			switch ((Op)i.op) {
			case LDR:
				v = load(a, 4);
				if (dowb)
					R[i.rn] = wb;
				if (i.rd == 15)
					branch_x(v);
				else
					R[i.rd] = v;
				break;
			case LDRB: v = load(a, 1); if (dowb) R[i.rn] = wb; R[i.rd] = v; break;
			case LDRH: v = load(a, 2); if (dowb) R[i.rn] = wb; R[i.rd] = v; break;
			case LDRSB: v = (u32)(int32_t)(int8_t)load(a, 1); if (dowb) R[i.rn] = wb; R[i.rd] = v; break;
			case LDRSH: v = (u32)(int32_t)(int16_t)load(a, 2); if (dowb) R[i.rn] = wb; R[i.rd] = v; break;
			case STR: store(a, 4, R[i.rd]); if (dowb) R[i.rn] = wb; break;
			case STRB: store(a, 1, R[i.rd] & 0xff); if (dowb) R[i.rn] = wb; break;
			default: store(a, 2, R[i.rd] & 0xffff); if (dowb) R[i.rn] = wb; break;
			}
			break;
		}
		case LDRD:
		case STRD: {
			u32 base = i.sh == 4 ? R[15] & ~3u : R[i.rn];
			u32 a = i.sh == 3 ? base : base + i.imm;
			if (a & 3)
				throw Fault{strf("unaligned double-word access at 0x%08x (pc 0x%08x)", a, pc)};
			if (i.op == LDRD) {
				u32 x = load(a, 4), y = load(a + 4, 4);
				if (i.sh == 2 || i.sh == 3)
					R[i.rn] = base + i.imm;
				R[i.rd] = x;
				R[i.ra] = y;
			} else {
				if ((i.sh == 2 || i.sh == 3) && i.rn == 13 && base + i.imm < min_sp)
					min_sp = base + i.imm;
				store(a, 4, R[i.rd]);
				store(a + 4, 4, R[i.ra]);
				if (i.sh == 2 || i.sh == 3)
					R[i.rn] = base + i.imm;
			}
			break;
		}
		case LDREX: R[i.rd] = load(R[i.rn] + i.imm, 4); break;
		case STREX: store(R[i.rn] + i.imm, 4, R[i.rd]); R[i.rm] = 0; break;
		case LDM: case LDMDB: case STM: case STMDB: {
			u32 n = 4 * __builtin_popcount(i.list), base = R[i.rn];
			bool down = i.op == LDMDB || i.op == STMDB;
			u32 a = down ? base - n : base, wb = down ? base - n : base + n;
			if (a & 3)
				throw Fault{strf("unaligned multiple access at 0x%08x (pc 0x%08x)", a, pc)};
			if (i.op == LDM || i.op == LDMDB) {
				u32 tmp[16];
				u32 q = a;
				for (int r = 0; r < 16; r++)
					if (i.list >> r & 1) {
						tmp[r] = load(q, 4);
						q += 4;
					}
				if (i.s)
					R[i.rn] = wb;
				for (int r = 0; r < 15; r++)
					if (i.list >> r & 1)
						R[r] = tmp[r];
				if (i.list >> 15 & 1)
					branch_x(tmp[15]);
			} else {
				if (i.rn == 13 && a < min_sp)
					min_sp = a;
				u32 q = a;
				for (int r = 0; r < 16; r++)
					if (i.list >> r & 1) {
						store(q, 4, R[r]);
						q += 4;
					}
				if (i.s)
					R[i.rn] = wb;
			}
			break;
		}
#define EXT(expr)                                                  \
	v = ror32(R[i.rm], i.shn);                                 \
	v = (expr);                                                \
	R[i.rd] = i.rn == 15 ? v : R[i.rn] + v;                    \
	break
		case SXTH: EXT((u32)(int32_t)(int16_t)v);
		case SXTB: EXT((u32)(int32_t)(int8_t)v);
		case UXTH: EXT(v & 0xffff);
		case UXTB: EXT(v & 0xff);
		case SXTB16:
		case UXTB16: {
			v = ror32(R[i.rm], i.shn);
			u32 lo = i.op == SXTB16 ? (u32)(int32_t)(int8_t)v : v & 0xff;
			u32 hi = i.op == SXTB16 ? (u32)(int32_t)(int8_t)(v >> 16) : v >> 16 & 0xff;
			u32 b = i.rn == 15 ? 0 : R[i.rn];
			R[i.rd] = ((b + lo) & 0xffff) | ((b >> 16) + hi) << 16;
			break;
		}
		case REV: R[i.rd] = __builtin_bswap32(R[i.rm]); break;
		case REV16: v = __builtin_bswap32(R[i.rm]); R[i.rd] = v >> 16 | v << 16; break;
		case REVSH: R[i.rd] = (u32)(int32_t)(int16_t)__builtin_bswap16((u16)R[i.rm]); break;
		case RBIT: {
			u32 a = R[i.rm];
			v = 0;
			for (int k = 0; k < 32; k++)
				v |= (a >> k & 1) << (31 - k);
			R[i.rd] = v;
			break;
		}
		case CLZ: R[i.rd] = R[i.rm] ? __builtin_clz(R[i.rm]) : 32; break;
		case BFI:
		case BFC: {
			u32 m_ = i.imm >= 32 ? 0xffffffffu : ((1u << i.imm) - 1);
			u32 src = i.op == BFC ? 0 : R[i.rn];
			R[i.rd] = (R[i.rd] & ~(m_ << i.shn)) | (src & m_) << i.shn;
			break;
		}
		case UBFX: R[i.rd] = R[i.rn] >> i.shn & (i.imm >= 32 ? 0xffffffffu : (1u << i.imm) - 1); break;
		case SBFX: R[i.rd] = (u32)((int32_t)(R[i.rn] << (32 - i.shn - i.imm)) >> (32 - i.imm)); break;
		case SSAT: c = C; R[i.rd] = (u32)sat((int32_t)shifted(R[i.rn], c), i.imm); break;
		case USAT: c = C; R[i.rd] = usat((int32_t)shifted(R[i.rn], c), i.imm); break;
		case SSAT16: v = R[i.rn]; R[i.rd] = ((u32)sat((int16_t)v, i.imm) & 0xffff) | (u32)sat((int16_t)(v >> 16), i.imm) << 16; break;
		case USAT16: v = R[i.rn]; R[i.rd] = usat((int16_t)v, i.imm) | usat((int16_t)(v >> 16), i.imm) << 16; break;
		case SEL: {
			v = 0;
			for (int k = 0; k < 4; k++)
				v |= ((ge >> k & 1) ? R[i.rn] : R[i.rm]) & (0xffu << 8 * k);
			R[i.rd] = v;
			break;
		}
		case PKHBT: v = R[i.rm] << i.shn; R[i.rd] = (R[i.rn] & 0xffff) | (v & 0xffff0000u); break;
		case PKHTB: v = (u32)((int32_t)R[i.rm] >> (i.shn == 32 ? 31 : i.shn)); R[i.rd] = (R[i.rn] & 0xffff0000u) | (v & 0xffff); break;
		case MUL: v = R[i.rn] * R[i.rm]; R[i.rd] = v; if (i.s) NZ(v); break;
		case MLA: R[i.rd] = R[i.ra] + R[i.rn] * R[i.rm]; break;
		case MLS: R[i.rd] = R[i.ra] - R[i.rn] * R[i.rm]; break;
		case SMLAXY:
		case SMULXY: {
			int32_t a = (int16_t)(i.imm & 2 ? R[i.rn] >> 16 : R[i.rn]), b = (int16_t)(i.imm & 1 ? R[i.rm] >> 16 : R[i.rm]);
			v = (u32)(a * b);
			R[i.rd] = i.op == SMLAXY ? R[i.ra] + v : v;
			break;
		}
		case SMLAD: case SMUAD: case SMLSD: case SMUSD: {
			u32 b = i.imm & 1 ? ror32(R[i.rm], 16) : R[i.rm];
			int64_t p = (int64_t)(int16_t)R[i.rn] * (int16_t)b, q = (int64_t)(int16_t)(R[i.rn] >> 16) * (int16_t)(b >> 16);
			int64_t r = i.op == SMLAD || i.op == SMUAD ? p + q : p - q;
			R[i.rd] = (u32)r + (i.op == SMLAD || i.op == SMLSD ? R[i.ra] : 0);
			break;
		}
		case SMLAW:
		case SMULW: {
			int64_t p = (int64_t)(int32_t)R[i.rn] * (int16_t)(i.imm & 1 ? R[i.rm] >> 16 : R[i.rm]);
			R[i.rd] = (u32)(p >> 16) + (i.op == SMLAW ? R[i.ra] : 0);
			break;
		}
		case SMMUL: case SMMLA: case SMMLS: {
			int64_t p = (int64_t)(int32_t)R[i.rn] * (int32_t)R[i.rm];
			int64_t a = i.op == SMMUL ? 0 : (int64_t)((u64)R[i.ra] << 32);
			u64 r = i.op == SMMLS ? (u64)a - (u64)p : (u64)a + (u64)p;
			if (i.imm & 1)
				r += 0x80000000u;
			R[i.rd] = r >> 32;
			break;
		}
		case USAD8:
		case USADA8: {
			v = i.op == USADA8 ? R[i.ra] : 0;
			for (int k = 0; k < 4; k++) {
				int d = (int)(R[i.rn] >> 8 * k & 0xff) - (int)(R[i.rm] >> 8 * k & 0xff);
				v += d < 0 ? -d : d;
			}
			R[i.rd] = v;
			break;
		}
		case SMULL: { u64 p = (u64)((int64_t)(int32_t)R[i.rn] * (int32_t)R[i.rm]); R[i.ra] = (u32)p; R[i.rd] = p >> 32; break; }
		case UMULL: { u64 p = (u64)R[i.rn] * R[i.rm]; R[i.ra] = (u32)p; R[i.rd] = p >> 32; break; }
		case SMLAL: { u64 p = ((u64)R[i.rd] << 32 | R[i.ra]) + (u64)((int64_t)(int32_t)R[i.rn] * (int32_t)R[i.rm]); R[i.ra] = (u32)p; R[i.rd] = p >> 32; break; }
		case UMLAL: { u64 p = ((u64)R[i.rd] << 32 | R[i.ra]) + (u64)R[i.rn] * R[i.rm]; R[i.ra] = (u32)p; R[i.rd] = p >> 32; break; }
		case UMAAL: { u64 p = (u64)R[i.rn] * R[i.rm] + R[i.rd] + R[i.ra]; R[i.ra] = (u32)p; R[i.rd] = p >> 32; break; }
		case SMLALXY: {
			int32_t a = (int16_t)(i.imm & 2 ? R[i.rn] >> 16 : R[i.rn]), b = (int16_t)(i.imm & 1 ? R[i.rm] >> 16 : R[i.rm]);
			u64 p = ((u64)R[i.rd] << 32 | R[i.ra]) + (u64)((int64_t)a * b);
			R[i.ra] = (u32)p;
			R[i.rd] = p >> 32;
			break;
		}
		case SMLALD:
		case SMLSLD: {
			u32 b = i.imm & 1 ? ror32(R[i.rm], 16) : R[i.rm];
			int64_t p = (int64_t)(int16_t)R[i.rn] * (int16_t)b, q = (int64_t)(int16_t)(R[i.rn] >> 16) * (int16_t)(b >> 16);
			u64 r = ((u64)R[i.rd] << 32 | R[i.ra]) + (u64)(i.op == SMLALD ? p + q : p - q);
			R[i.ra] = (u32)r;
			R[i.rd] = r >> 32;
			break;
		}
		case SDIV: {
			divided(R[i.rn], R[i.rm]);
			int32_t a = (int32_t)R[i.rn], b = (int32_t)R[i.rm];
			R[i.rd] = !b ? 0 : (a == INT32_MIN && b == -1) ? (u32)a : (u32)(a / b);
			break;
		}
		case UDIV:
			divided(R[i.rn], R[i.rm]);
			R[i.rd] = R[i.rm] ? R[i.rn] / R[i.rm] : 0; break;
		case PAR: R[i.rd] = parallel(R[i.rn], R[i.rm], i.imm & 7, i.imm >> 4, ge); break;
		case QADD: R[i.rd] = (u32)sat((int64_t)(int32_t)R[i.rm] + (int32_t)R[i.rn], 32); break;
		case QSUB: R[i.rd] = (u32)sat((int64_t)(int32_t)R[i.rm] - (int32_t)R[i.rn], 32); break;
		case QDADD: R[i.rd] = (u32)sat((int64_t)(int32_t)R[i.rm] + sat(2 * (int64_t)(int32_t)R[i.rn], 32), 32); break;
		case QDSUB: R[i.rd] = (u32)sat((int64_t)(int32_t)R[i.rm] - sat(2 * (int64_t)(int32_t)R[i.rn], 32), 32); break;
		case SVC:
			if (!svc)
				throw Fault{strf("supervisor call %u without a handler (pc 0x%08x)", i.imm, pc)};
			svc(*this, i.imm);
			break;
		case NOP:
		case ITOP:
			break;
		case CPS:
			primask = i.imm & 0x10;
			break;
		case MRS:
			R[i.rd] = i.imm == 16 ? primask : i.imm < 4 ? (u32)N << 31 | (u32)Z << 30 | (u32)C << 29 | (u32)V << 28 : i.imm == 8 ? R[13] : 0;
			break;
		case MSR:
			if (i.imm == 16)
				primask = R[i.rn] & 1;
			else if (i.imm < 4) {
				v = R[i.rn];
				N = v >> 31;
				Z = v >> 30 & 1;
				C = v >> 29 & 1;
				V = v >> 28 & 1;
			}
			break;
		case HOOK: {
			R[15] = next;
			auto f = hooks.at(pc);
			f(*this);
			next = R[15] & ~1u;
			break;
		}
		case BKPT:
			throw Fault{strf("breakpoint instruction (pc 0x%08x)", pc)};
		default: {
			g_unsupported++;
			Mem *x = find(pc, 4);
			throw Fault{strf("instruction %04x %04x at 0x%08x is not defined for this core", rd16(&x->data[pc - x->base]), rd16(&x->data[pc + 2 - x->base]), pc), true};
		}
		}
		if (R[13] < min_sp)
			min_sp = R[13];
		pc = next;
		if (__builtin_expect(pc == stop2, 0) && stop2)
			break;
	}
	R[15] = pc;
}

void Machine::load_elf(const std::string &path, bool lma)
{
	std::ifstream f(path, std::ios::binary);
	std::string d((std::istreambuf_iterator<char>(f)), {});
	if (d.size() < sizeof(Elf32_Ehdr))
		throw Fault{"cannot read " + path};
	const u8 *b = (const u8 *)d.data();
	Elf32_Ehdr eh;
	memcpy(&eh, b, sizeof eh);
	for (int k = 0; k < eh.e_phnum; k++) {
		Elf32_Phdr ph;
		memcpy(&ph, b + eh.e_phoff + k * eh.e_phentsize, sizeof ph);
		if (ph.p_type != PT_LOAD || !ph.p_filesz)
			continue;
		u32 a = lma ? ph.p_paddr : ph.p_vaddr;
		memcpy(raw(a, ph.p_filesz), b + ph.p_offset, ph.p_filesz);
	}
	for (int k = 0; k < eh.e_shnum; k++) {
		Elf32_Shdr sh;
		memcpy(&sh, b + eh.e_shoff + k * eh.e_shentsize, sizeof sh);
		if (sh.sh_type != SHT_SYMTAB)
			continue;
		Elf32_Shdr st;
		memcpy(&st, b + eh.e_shoff + sh.sh_link * eh.e_shentsize, sizeof st);
		for (u32 o = 0; o + sizeof(Elf32_Sym) <= sh.sh_size; o += sizeof(Elf32_Sym)) {
			Elf32_Sym s;
			memcpy(&s, b + sh.sh_offset + o, sizeof s);
			const char *n = (const char *)b + st.sh_offset + s.st_name;
			if (*n && *n != '$' && s.st_shndx != SHN_UNDEF) {
				int t = ELF32_ST_TYPE(s.st_info);
				if (t == STT_FUNC || t == STT_OBJECT || t == STT_NOTYPE) {
					bool global = ELF32_ST_BIND(s.st_info) != STB_LOCAL;
					if (global || !sym.count(n)) {
						sym[n] = s.st_value;
						symsize[n] = s.st_size;
					}
				}
			}
		}
	}
}
