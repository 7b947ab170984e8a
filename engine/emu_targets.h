#pragma once
#include "emu.h"
struct Board { // what the XMC1100 firmware talks to
	Bytes stream;	 // hardware random output
	size_t pos = 0;
	struct Read {
		u16 v;
		u8 bytes;
	};
	std::vector<Read> reads;
	std::vector<u16> keys;
	u16 ctrl = 0;
	u32 polls = 0, tx_polls = 0, dead_reads = 0, stray_writes = 0, clk_busy = 0, trbsr = 0;
	std::map<u32, u32> regs;
	std::string uart;
	u32 fifo = 0, lost = 0; // transmit FIFO: characters waiting, characters written while it was full
	// SysTick: counts down 'rate' ticks per instruction while enabled
	u32 csr = 0, rvr = 0, cvr = 0, rate = 1;
	u64 at = 0, wraps = 0; // step count cvr belongs to; times it reached zero
	std::vector<u64> jumps; // step counts at which the timer skips ahead to its end
	size_t next_jump = 0;
	bool may_jump = false;
	u64 jumped = 0; // ticks skipped
	void timer(Machine &m); // bring the timer up to date
	u16 next_word();
	bool access(Machine &m, u32 a, u32 n, bool write, u32 &v);
};
struct M0Target : EmuTarget {
	Board board;
	std::vector<Mem> power_up;
	u32 rb_hook = 0;
	void fresh_board();
	void hook_rng(bool on); // replace randombytes by the harness's source
};
inline M0Target *m0(Target *t) { return dynamic_cast<M0Target *>(t); }
