// Validation of the instruction-set model against native execution (tools/isstest.py).
#include "emu_targets.h"
#include <dlfcn.h>
int isstest(int argc, char **argv)
{
	std::map<std::string, std::string> kv = {{"id", "iss"}, {"family", "iss"}, {"path", argv[2]}, {"L", "3"}, {"bare", "1"}};
	if (atoi(argv[7]))
		kv["v6m"] = "1";
	TargetP t = make_m4_target(kv);
	void *h = dlopen(argv[3], RTLD_NOW);
	if (!h)
		return 2;
	Rng r(atoll(argv[6]));
	int bad = 0;
	for (int f = 0; f < atoi(argv[4]); f++)
		for (int k = 0; k < 6; k++) {
			std::string n = strf("f%d", f);
			Bytes a = gen_bytes(r, 256), b = gen_bytes(r, 256), c = gen_bytes(r, 264);
			u32 p = r.next();
			auto fn = (u64(*)(u32 *, u16 *, u8 *, u32))dlsym(h, n.c_str());
			std::vector<EArg> args = {EArg::inout(a), EArg::inout(b), EArg::inout(c), EArg::v(p)};
			alignas(16) u8 ha[256], hb[256], hc[264];
			memcpy(ha, a.data(), 256);
			memcpy(hb, b.data(), 256);
			memcpy(hc, c.data(), 264);
			u64 want = fn((u32 *)ha, (u16 *)hb, hc, p);
			OpResult o = emu(t.get())->call(n.c_str(), args);
			u64 got = emu(t.get())->m.R[0] | (u64)emu(t.get())->m.R[1] << 32;
			std::string why = o.fault;
			if (why.empty() && got != want)
				why = strf("returned %llx, expected %llx", (unsigned long long)got, (unsigned long long)want);
			if (why.empty() && (memcmp(ha, args[0].data.data(), 256) || memcmp(hb, args[1].data.data(), 256) || memcmp(hc, args[2].data.data(), 264)))
				why = "memory differs";
			if (!why.empty()) {
				printf("%s: %s\n", n.c_str(), why.c_str());
				bad++;
				break;
			}
		}
	return bad != 0;
}
