#pragma once
#include "engine.h"
#include <unordered_map>
struct CmpEv {
	u64 a, b;
	u8 size;
};
struct CmpSite {
	u64 hash = 0, n = 0, best = ~0ull;
	unsigned rel = 0; // outcomes: 1 less, 2 equal, 4 greater (or different, for blocks)
	std::vector<CmpEv> ev;
	std::vector<std::pair<Bytes, Bytes>> blocks;
};
struct CmpLog {
	std::unordered_map<u64, CmpSite> sites;
	void add(u64 pc, u64 a, u64 b, unsigned size);
	void mem(u64 pc, const void *a, const void *b, size_t n);
};
extern CmpLog *g_cmplog; // the emulator and the traced host builds report here
// adds "<base>-guided"; base.guide names the buffers that may take any value
void add_guided(Property &P, const Check &base, std::function<std::pair<u64, u64>(Target *)> count);
std::pair<u64, u64> guided_count(Target *t);
