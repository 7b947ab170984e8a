// C20: the multiplication code the shipped generator writes, and what the alignment widener does to assembly.
#include "emu.h"
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static Bytes b16(const std::vector<u16> &v) { return Bytes((const u8 *)v.data(), (const u8 *)v.data() + v.size() * 2); }
static std::vector<u16> v16(const Bytes &b)
{
	std::vector<u16> v(b.size() / 2);
	memcpy(v.data(), b.data(), v.size() * 2);
	return v;
}
static bool same(Out &o, const char *w, const Bytes &got, const std::vector<u16> &want, int bits)
{
	unsigned m = bits >= 16 ? 0xffff : (1u << bits) - 1;
	auto g = v16(got);
	for (size_t i = 0; i < want.size(); i++)
		if ((g[i] ^ want[i]) & m)
			return o.bad(strf("%s: coefficient %zu is %u, expected %u (modulo 2^%d)", w, i, g[i] & m, want[i] & m, bits));
	return true;
}

// ---------------------------------------------------------------- programs for the widener
// One instruction from four bytes; zero bytes give 'nop'. r0 is the data pointer and stays put.
static std::string lo(u8 x) { return "r" + std::to_string(1 + x % 7); }
static bool use_lr; // without calls: the return address of a call depends on the layout
static std::string any(u8 x)
{
	static const char *n[] = {"r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r14"};
	return n[x % (use_lr ? 13 : 12)];
}
struct Prog {
	std::vector<std::string> line;
	int depth = 0;
};
static void emit(Prog &p, const u8 *q, bool calls)
{
	int op = q[0] % 40;
	u8 a = q[1], b = q[2], c = q[3];
	std::string s;
	auto add = [&](const std::string &x) { p.line.push_back(x); };
	std::string off4 = std::to_string((b % 64) * 4), off2 = std::to_string((b % 64) * 2);
	static const char *dsp3[] = {"uadd16", "usub16", "smuad", "smusd", "smulbb", "smulbt", "smultb", "smultt", "smuadx", "smusdx", "mul"};
	static const char *dsp4[] = {"smlabb", "smlabt", "smlatb", "smlatt", "smlad", "smladx", "smlsd", "mla", "mls"};
	switch (op) {
	case 0: add("nop"); break;
	case 1: add("ldr " + any(a) + ", [r0, #" + off4 + "]"); break;
	case 2: add("str " + any(a) + ", [r0, #" + off4 + "]"); break;
	case 3: add("ldrh " + any(a) + ", [r0, #" + off2 + "]"); break;
	case 4: add("strh " + any(a) + ", [r0, #" + off2 + "]"); break;
	case 5: case 6: case 7: add(std::string(dsp3[c % 11]) + " " + any(a) + ", " + any(b) + ", " + any(c >> 4)); break;
	case 8: case 9: add(std::string(dsp4[c % 9]) + " " + any(a) + ", " + any(b) + ", " + any(c >> 3) + ", " + any(a >> 4)); break;
	case 10: add("pkhbt " + any(a) + ", " + any(b) + ", " + any(c) + ", lsl #16"); break;
	case 11: add("pkhtb " + any(a) + ", " + any(b) + ", " + any(c) + ", asr #16"); break;
	case 12: add("mov " + any(a) + ", " + any(b)); break;
	case 13: add("movw " + any(a) + ", #" + std::to_string(b * 257 + c)); break;
	case 14: add("add " + lo(a) + ", " + any(b)); break; // 16 bits wide, flags untouched
	case 15: add("add " + any(a) + ", " + any(b) + ", #" + std::to_string(c)); break;
	case 16: add("sub " + any(a) + ", " + any(b) + ", " + any(c)); break;
	case 17: add("adds " + lo(a) + ", " + lo(b) + ", " + lo(c)); break;
	case 18: add("subs " + lo(a) + ", " + lo(b) + ", " + lo(c)); break;
	case 19: add("adds " + lo(a) + ", #" + std::to_string(b)); break;
	case 20: add("adcs " + lo(a) + ", " + lo(b)); break;
	case 21: add("sbcs " + lo(a) + ", " + lo(b)); break;
	case 22: add("ands " + lo(a) + ", " + lo(b)); break;
	case 23: add("eors " + lo(a) + ", " + lo(b)); break;
	case 24: add("orrs " + lo(a) + ", " + lo(b)); break;
	case 25: add("lsls " + lo(a) + ", " + lo(b) + ", #" + std::to_string(c % 31 + 1)); break;
	case 26: add("lsrs " + lo(a) + ", " + lo(b) + ", #" + std::to_string(c % 31 + 1)); break;
	case 27: add("asrs " + lo(a) + ", " + lo(b) + ", #" + std::to_string(c % 31 + 1)); break;
	case 28: add("lsl " + any(a) + ", " + any(b) + ", #" + std::to_string(c % 31 + 1)); break;
	case 29: add("add " + any(a) + ", " + any(b) + ", " + any(c) + ", asr #16"); break;
	case 30: add("movs " + lo(a) + ", #" + std::to_string(b)); break;
	case 31: add("sxth " + lo(a) + ", " + lo(b)); break;
	case 32: add("uxtb " + lo(a) + ", " + lo(b)); break;
	case 33: add("uxth " + any(a) + ", " + any(b)); break;
	case 34: add("cmp " + lo(a) + ", #" + std::to_string(b)); break;
	case 35:
		if (p.depth < 8) {
			add("push {" + any(a) + "}");
			p.depth++;
		}
		break;
	case 36:
		if (p.depth > 0) {
			add("pop {" + any(a) + "}");
			p.depth--;
		}
		break;
	case 37:
		if (p.depth < 7) {
			add("push {r" + std::to_string(1 + a % 3) + "-r" + std::to_string(4 + b % 3) + "}");
			p.depth += 4 + b % 3 - (1 + a % 3) + 1;
		}
		break;
	case 38:
		if (p.depth > 0)
			add("ldr " + any(a) + ", [sp, #" + std::to_string(b % p.depth * 4) + "]");
		break;
	case 39:
		if (calls)
			add("bl helper");
		else
			add("rsb " + any(a) + ", " + any(b) + ", #" + std::to_string(c));
		break;
	}
}
static std::string body(const Bytes &code, const char *name, bool calls)
{
	Prog p;
	std::string s = std::string(".global ") + name + "\n.type " + name + ", %function\n.align 2\n" + name + ":\n";
	s += "push {r4-r11, lr}\n";
	use_lr = !calls && !strcmp(name, "routine");
	for (size_t i = 0; i + 3 < code.size(); i += 4)
		emit(p, &code[i], calls);
	for (auto &l : p.line)
		s += l + "\n";
	for (int k = 1; k < 13; k++) // results: registers, then the carry flag
		s += "str r" + std::to_string(k) + ", [r0, #" + std::to_string(256 + 4 * k) + "]\n";
	s += "movw r1, #0\nadc r1, r1, r1\nstr r1, [r0, #256]\n";
	while (p.depth > 0) {
		s += "pop {r1}\n";
		p.depth--;
	}
	s += "pop {r4-r11, lr}\nbx lr\n";
	return s;
}
static int shell(const std::string &cmd, std::string *text = nullptr)
{
	FILE *f = popen((cmd + " 2>&1 </dev/null").c_str(), "r");
	if (!f)
		return -1;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0)
		if (text)
			text->append(buf, n);
	int st = pclose(f);
	return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static std::string q(const std::string &s) { return "'" + s + "'"; }
// assembles and links; the function symbols in 'syms' end up in the program
static bool assemble(const std::string &s, const std::string &elf, std::string &why)
{
	std::string cc = "arm-none-eabi-gcc -mthumb -mcpu=cortex-m4 -mfloat-abi=soft";
	std::string text;
	if (shell(cc + " -nostdlib -Wl,-T," + q(getenv("VF_LINK")) + " -Wl,--no-warn-rwx-segments -Wl,-e,0 -o " + q(elf) + " " + q(s), &text)) {
		why = text.substr(0, 300);
		return false;
	}
	return true;
}
// 32-bit instructions that do not start on a word boundary, in [start, end)
static int misaligned(Machine &m, u32 a, u32 end)
{
	int bad = 0;
	while (a < end) {
		u16 h;
		memcpy(&h, m.raw(a, 2), 2);
		bool wide = (h >> 11) >= 0x1d;
		if (wide && (a & 3))
			bad++;
		a += wide ? 4 : 2;
	}
	return bad;
}
static std::shared_ptr<EmuTarget> load(const std::string &elf)
{
	std::map<std::string, std::string> kv = {{"id", "widened"}, {"family", "gen"}, {"path", elf}, {"L", "3"}, {"bare", "1"}};
	TargetP t = make_m4_target(kv);
	return std::dynamic_pointer_cast<EmuTarget>(t);
}

static Registrar r20("C20", [](Property &P) {
	Check c;
	c.name = "products";
	c.rule = "an entry point of the generated (or committed) multiplication code on operands with a nonzero product: the 64-coefficient kernel, "
		 "the all-assembly ring product, the ring product of the C code around the kernel; against schoolbook multiplication, with the calling convention checked";
	c.targets = [] { return all_targets([](Target &) { return true; }); };
	c.gen = [](Rng &r, Case &k, u64 i, Target *) {
		auto one = [&](size_t n) {
			if (r.chance(1, 4)) {
				std::vector<u16> v(n, 0);
				for (int z = r.range(1, 3); z > 0; z--)
					v[r.below(n)] = r.chance(1, 2) ? 0xffff : r.next();
				return v;
			}
			return gen_coeffs(r, n, r.chance(1, 2) ? 13 : 16);
		};
		k.n["unit"] = i % 4;
		k.b["a"] = b16(one(256));
		k.b["b"] = b16(one(256));
		k.b["acc"] = b16(gen_coeffs(r, 256, 16));
	};
	c.run = [](const Case &k, Out &o, Target *t_) {
		EmuTarget *t = emu(t_);
		if (!t->broken.empty()) {
			o.bad(t->broken);
			return;
		}
		auto a = v16(k.b.at("a")), b = v16(k.b.at("b")), acc = v16(k.b.at("acc"));
		int u = k.n.at("unit") & 3;
		const char *name = u == 0 ? "vf_kara64" : u == 1 ? "vf_tc_acc" : u == 2 ? "vf_polymul_acc" : "vf_polymul";
		if (!t->sym(name))
			return;
		OpResult r;
		std::vector<u16> w;
		int out = 2, bits = 16;
		std::vector<EArg> e;
		if (u == 0) {
			std::vector<u16> f(128, 0);
			for (int i = 0; i < 64; i++)
				for (int j = 0; j < 64; j++)
					f[i + j] += a[i] * b[j];
			for (int i = 0; i < 64; i++)
				w.push_back(f[i] - f[i + 64]);
			a.resize(64);
			b.resize(64);
			e = {EArg::inout(b16(a)), EArg::inout(b16(b)), EArg::out(128, 0x5a), EArg::out(256, 0x77)};
		} else {
			w = u == 3 ? std::vector<u16>(256, 0) : acc;
			model::mul_acc(w.data(), a.data(), b.data());
			bits = 13;
			e = {EArg::inout(b16(a)), EArg::inout(b16(b)), EArg::inout(b16(acc))};
		}
		r = t->call(name, e);
		if (!r.fault.empty()) {
			o.bad(strf("%s: %s", name, r.fault.c_str()));
			return;
		}
		same(o, name, e[out].data, w, bits);
		o.cls(name);
		o.nontrivial = std::count(w.begin(), w.end(), 0) != (long)w.size();
	};
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 60000 : 6000, 16); };
	P.checks.push_back(c);

	c.name = "aligned";
	c.rule = "the widened generator output: every 32-bit instruction of the routines starts on a word boundary";
	c.targets = [] { return all_targets([](Target &t) { return t.id.find("widened") != std::string::npos; }); };
	c.gen = [](Rng &, Case &k, u64, Target *) { k.n["whole"] = 1; };
	c.run = [](const Case &, Out &o, Target *t_) {
		EmuTarget *t = emu(t_);
		if (!t->broken.empty()) {
			o.bad(t->broken);
			return;
		}
		for (auto n : {"schoolbook_gen", "kara_strd_mem_asm", "toom_cook_4way_striding_asm"}) {
			auto it = t->m.sym.find(n);
			if (it == t->m.sym.end())
				continue;
			u32 a = it->second & ~1u, e = a;
			for (;; e += 2) { // up to its return
				u16 h;
				memcpy(&h, t->m.raw(e, 2), 2);
				if (h == 0x4770)
					break;
				if ((h >> 11) >= 0x1d)
					e += 2;
			}
			int bad = misaligned(t->m, a, e);
			if (bad) {
				o.bad(strf("%s has %d misaligned 32-bit instructions after widening", n, bad));
				return;
			}
			o.cls(n);
			o.nontrivial = true;
		}
	};
	c.count = [](Target *) { return std::pair<u64, u64>(1, 1); };
	P.checks.push_back(c);

	c.name = "widener";
	c.rule = "a generated straight-line routine (with calls of a second one) in which the widener changed at least one instruction: same results in registers, "
		 "carry flag and memory as before widening, on generated register and memory contents; no 32-bit instruction of the routine is left misaligned";
	c.targets = [] { return all_targets([](Target &t) { return t.id == "committed"; }); };
	c.gen = [](Rng &r, Case &k, u64, Target *) {
		int n = r.chance(1, 5) ? r.range(1, 8) : r.range(8, 120);
		k.b["code"] = uniform_bytes(r, 4 * n);
		k.b["helper"] = uniform_bytes(r, 4 * r.range(0, 30));
		k.b["mem"] = gen_bytes(r, 512);
		k.n["calls"] = r.below(2);
		k.n["first"] = r.below(2);
		k.n["verbose"] = r.below(2);
	};
	c.run = [](const Case &k, Out &o, Target *) {
		const char *root = getenv("VF_SCRATCH");
		if (!root)
			return;
		mkdir(root, 0777);
		std::string d = strf("%s/%d", root, (int)getpid());
		mkdir(d.c_str(), 0777);
		std::string plain = d + "/p.s", wide = d + "/w.s";
		bool calls = k.n.at("calls");
		std::string fm = body(k.b.at("code"), "routine", calls), fh = body(k.b.at("helper"), "helper", false);
		std::string text = ".syntax unified\n.cpu cortex-m4\n" + (k.n.at("first") ? fm + fh : fh + fm);
		std::ofstream(plain) << text;
		std::ofstream(wide) << text;
		std::string why, out;
		auto clean = [&] {
			for (auto f : {"/p.s", "/w.s", "/p.elf", "/w.elf", "/w.o", "/w.dump"})
				unlink((d + f).c_str());
			rmdir(d.c_str());
		};
		if (!assemble(plain, d + "/p.elf", why)) {
			fprintf(stderr, "generated program: %s\n%s\n", why.c_str(), text.c_str());
			o.cls("not a program");
			clean();
			return;
		}
		int rc = shell("cd " + q(d) + " && python3 -B " + q(getenv("VF_WIDENER")) + (k.n.at("verbose") ? " -v" : "") + " w.s", &out);
		if (rc) {
			o.bad(strf("the widener ends with status %d: ...%s", rc, out.substr(out.size() > 200 ? out.size() - 200 : 0).c_str()));
			clean();
			return;
		}
		if (!assemble(wide, d + "/w.elf", why)) {
			o.bad("the widened program does not assemble: " + why);
			clean();
			return;
		}
		auto A = load(d + "/p.elf"), B = load(d + "/w.elf");
		clean();
		for (auto n : {"routine", "helper"}) {
			if (!B->sym(n)) {
				o.bad(strf("%s is missing from the widened program", n));
				return;
			}
		}
		o.nontrivial = A->m.mem[0].data != B->m.mem[0].data;
		std::vector<EArg> x = {EArg::inout(k.b.at("mem"))}, y = x;
		OpResult ra = A->call("routine", x), rb = B->call("routine", y);
		if (ra.fault.empty() != rb.fault.empty()) {
			o.bad("before widening: " + (ra.fault.empty() ? "runs" : ra.fault) + "; after: " + (rb.fault.empty() ? "runs" : rb.fault));
			return;
		}
		if (!ra.fault.empty()) {
			o.cls("fault before and after");
			return;
		}
		std::string df = diff("results after widening", y[0].data.data(), x[0].data.data(), 512);
		if (!df.empty())
			o.bad(df);
		u32 at = B->m.sym.at("routine") & ~1u, end = at;
		for (;; end += 2) {
			u16 h;
			memcpy(&h, B->m.raw(end, 2), 2);
			if (h == 0x4770)
				break;
			if ((h >> 11) >= 0x1d)
				end += 2;
		}
		if (int bad = misaligned(B->m, at, end))
			o.bad(strf("the widened routine has %d misaligned 32-bit instructions", bad));
		o.cls(calls ? "with calls" : "no calls");
	};
	c.count = [](Target *) { return std::pair<u64, u64>(g_thorough ? 20000 : 900, 6); };
	P.checks.push_back(c);
	P.assumptions.push_back("Cortex-M instruction-set model, validated against a C compiler's output on random programs");
});
