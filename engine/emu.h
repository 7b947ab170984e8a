// Instruction-set model of ARMv6-M and ARMv7E-M (Thumb, Thumb-2, DSP) with a checked bus.
#pragma once
#include "engine.h"
#include <unordered_map>

enum { PR = 1, PW = 2, PX = 4 };

struct Fault {
	std::string what;
	bool unsupported = false; // a limit of this model, not of the code under test
};

struct Insn {
	u8 op = 0, cond = 14, len = 2, s = 0; // s: sets flags
	u8 rd = 0, rn = 0, rm = 0, ra = 0;
	u8 sh = 0, shn = 0; // shift type and amount of the second operand; addressing mode of memory ops
	u16 list = 0;
	u32 imm = 0;
};

struct Mem {
	u32 base = 0, size = 0;
	std::vector<u8> data, perm;
};

struct Taint;
struct Machine {
	bool v6m = false;
	u32 R[16];
	bool N = false, Z = false, C = false, V = false;
	u32 ge = 0;
	bool primask = false;
	std::vector<Mem> mem;
	u64 steps = 0, limit = 400000000ull, trace = 0;
	u32 min_sp = 0xffffffffu;
	u32 last_pc = 0;
	u32 stop2 = 0; // another address at which run() returns, when not reached first thing
	Taint *taint = nullptr; // follows secrets
	std::vector<u64> *log = nullptr; // executed addresses, and data addresses with a bit above them
	std::map<std::string, u32> sym; // function symbols carry the Thumb bit
	std::map<std::string, u32> symsize;
	std::function<void(Machine &, u32 n)> svc;
	std::function<bool(Machine &, u32 addr, u32 size, bool write, u32 &v)> device; // false: no device there
	std::unordered_map<u32, std::function<void(Machine &)>> hooks; // run instead of the instruction there
	std::function<void(Machine &)> on_exc_return;
	u64 irq_step = ~0ull;		     // step count at which on_timer runs
	std::function<void(Machine &)> on_timer; // sets irq_step again, and irq_pending when the timer interrupt is due
	bool irq_pending = false;
	u32 irq_vector = 0;
	u64 irqs = 0;
	bool in_irq = false;

	Mem *find(u32 a, u32 n)
	{
		for (auto &m : mem)
			if (a - m.base < m.size && m.size - (a - m.base) >= n)
				return &m;
		return nullptr;
	}
	void add(u32 base, u32 size, int perm, u8 fill = 0);
	void setperm(u32 a, u32 n, int perm);
	u8 *raw(u32 a, u32 n);		 // no permission check
	void write(u32 a, const u8 *p, size_t n) // with permission checks, as one would by stores
	{
		if (n)
			memcpy(access(a, n, PW), p, n);
	}
	void read(u8 *p, u32 a, size_t n)
	{
		if (n)
			memcpy(p, access(a, n, PR), n);
	}
	u8 *access(u32 a, u32 n, int perm);
	void divided(u32 a, u32 b);
	u32 load(u32 a, u32 n);
	void store(u32 a, u32 n, u32 v);
	// runs until control reaches 'stop' (without the Thumb bit)
	void run(u32 pc, u32 stop);
	void exc_return(u32 v);
	void load_elf(const std::string &path, bool lma);
	void flush() { code.clear(); }
	Insn decode(u32 pc, u32 &itcond, int &itleft);
	struct Code {
		u32 base, size;
		std::vector<Insn> insn;
	};
	std::vector<Code> code; // decoded instructions per executable region
      private:
	void take_irq(u32 &pc);
	Insn *fetch(u32 pc);
};

// A program for one of the Cortex-M targets, with the test bench around it.
struct EArg {
	enum { VAL, IN, OUT, INOUT } kind = VAL;
	u64 val = 0;
	Bytes data;	// contents before; after the call: contents of OUT and INOUT buffers
	u32 align = 8, skew = 0;
	bool wide = false; // 64-bit value
	Bytes secret;	   // which bits of the contents are secret, when secrets are followed
	int alias = -1;	   // same buffer as this earlier argument
	static EArg again(int k) { EArg a; a.alias = k; return a; }
	static EArg v(u64 x) { EArg a; a.val = x; return a; }
	static EArg v64(u64 x) { EArg a; a.val = x; a.wide = true; return a; }
	static EArg in(const Bytes &b, u32 skew = 0) { EArg a; a.kind = IN; a.data = b; a.skew = skew; return a; }
	static EArg inout(const Bytes &b, u32 skew = 0) { EArg a; a.kind = INOUT; a.data = b; a.skew = skew; return a; }
	static EArg out(size_t n, u8 fill, u32 skew = 0) { EArg a; a.kind = OUT; a.data.assign(n, fill); a.skew = skew; return a; }
};

struct EmuTarget : Target {
	Machine m;
	std::vector<Mem> pristine;
	u32 stack_lo = 0, stack_hi = 0, arena = 0, arena_size = 0;
	RngFeed feed;
	u32 skew = 0;	     // misalignment of the argument buffers
	u8 poison = 0xa5;    // contents of unused stack
	Bytes secret_sk;     // secret bits of the key given to dec()
	void repoison(u8 fill);
	bool has(const char *name) const { return m.sym.count(name) != 0; }
	void *sym(const char *name) override { return has(name) ? (void *)(uintptr_t)m.sym.at(name) : nullptr; } // presence only
	// calls a function by the procedure call standard and checks its obligations
	OpResult call(const char *name, std::vector<EArg> &args, u32 *ret = nullptr);
	OpResult keypair(u8 *pk, u8 *sk, const Bytes &rnd) override;
	OpResult enc(u8 *ct, u8 *ss, const u8 *pk, const Bytes &rnd) override;
	OpResult dec(u8 *ss, const u8 *ct, const u8 *sk) override;
	void reset() override;
};
inline EmuTarget *emu(Target *t) { return dynamic_cast<EmuTarget *>(t); }
void keccak_f1600(u64 s[25]);
extern u64 g_unsupported; // times the model met something it does not implement
