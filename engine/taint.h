// Which bits derive from secrets: a shadow of the registers, flags and memory of a Machine.
#pragma once
#include "emu.h"
struct Taint {
	u32 T[16] = {0};
	bool n = false, z = false, c = false, v = false;
	u32 ge = 0;
	std::vector<std::vector<u8>> sh; // one byte per byte of memory, one bit per bit
	u64 events = 0;			 // decisions, addresses and divisions that derive from secrets
	std::string first;
	u32 first_pc = 0;
	bool secret_rng = true;
	explicit Taint(Machine &m);
	void mark(Machine &m, u32 a, const u8 *mask, size_t n);
	void mark(Machine &m, u32 a, size_t n, u8 mask);
	bool any(Machine &m, u32 a, size_t n);
	// before the instruction's effects; 'taken': its condition holds
	void step(Machine &m, const Insn &i, u32 pc, bool taken);
	void report(u32 pc, const std::string &what);

      private:
	u8 *at(Machine &m, u32 a, u32 n);
	u32 ld(Machine &m, u32 a, u32 n);
	void st(Machine &m, u32 a, u32 n, u32 t);
};
