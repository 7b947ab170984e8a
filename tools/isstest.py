#!/usr/bin/env python3
"""Validates the instruction-set model: random C functions, compiled for Cortex-M4 and Cortex-M0 at
several optimisation levels, must give the same results on the model as natively.
usage: isstest.py [rounds] [seed]   (development tool; not part of any check)"""
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import build  # noqa: E402

TYPES = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t"]


class G:
    def __init__(self, r):
        self.r = r

    def expr(self, vs, d):
        r = self.r
        if d == 0 or r.random() < .12:
            k = r.randrange(6)
            if k == 0:
                return r.choice(["0", "1", "3", "0xff", "0x8000", "45", "0xffff", "0x80000000u", "0x12345678u", "0xff00ff00u",
                                 "255u", "-1", "-30", "4096", "0xaaab", "0x00ab00abu", str(r.getrandbits(r.choice([5, 8, 12, 16, 31])))])
            if k == 1:
                return "A[(%s) & 63]" % self.expr(vs, max(0, d - 1))
            if k == 2:
                return "B[(%s) & 127]" % self.expr(vs, max(0, d - 1))
            if k == 3:
                return "C8[(%s) & 255]" % self.expr(vs, max(0, d - 1))
            return r.choice(vs)
        e = lambda: self.expr(vs, d - 1)
        k = r.randrange(30)
        if k < 8:
            return "(%s %s %s)" % (e(), r.choice("+-*&|^"), e())
        if k < 10:
            w = r.choice([16, 32, 32, 64])
            return "((uint%d_t)(%s) %s ((%s) & %d))" % (w, e(), r.choice(["<<", ">>"]), e(), (w if w > 16 else 16) - 1)
        if k == 10:
            return "((int%d_t)(%s) >> %d)" % (r.choice([32, 64]), e(), r.randrange(32))
        if k == 11:
            return "((uint32_t)(%s) << %d)" % (e(), r.randrange(32))
        if k == 12:
            return "rol32(%s, %d)" % (e(), r.randrange(1, 32))
        if k == 13:
            return "(%s ? %s : %s)" % (e(), e(), e())
        if k == 14:
            return "((%s)(%s) %s (%s)(%s))" % (t := r.choice(TYPES), e(), r.choice(["<", ">", "<=", ">=", "==", "!="]), t, e())
        if k == 15:
            t = r.choice(TYPES)
            return "((%s)(%s) %s (%s)(((%s)(%s) & 63) + 1))" % (t if t[0] == "u" else "u" + t, e(), r.choice("/%"), "u" + t.lstrip("u"), "u" + t.lstrip("u"), e())
        if k == 16:
            return "(int32_t)((int16_t)(%s) * (int16_t)(%s))" % (e(), e())
        if k == 17:
            return "((uint32_t)(int32_t)((int16_t)(%s) * (int16_t)(%s)) + (uint32_t)(%s))" % (e(), e(), e())
        if k == 18:
            return "((%s)(%s) * (%s)(%s) + (uint64_t)(%s))" % (("uint64_t)(uint32_t", e(), "uint32_t", e(), e()) if r.random() < .5 else ("uint64_t)(int64_t)(int32_t", e(), "int32_t", e(), e()))
        if k == 19:
            return "(~(%s))" % e()
        if k == 20:
            return "(-(uint32_t)(%s))" % e()
        if k == 21:
            return "((%s)(%s))" % (r.choice(TYPES), e())
        if k == 22:
            return "bf(%s)" % e()
        if k == 23:
            return "__builtin_%s((uint32_t)(%s) | 1)" % (r.choice(["clz", "bswap32", "ctz", "popcount"]), e())
        if k == 24:
            return "(uint32_t)(((uint32_t)(%s) >> %d) & 0x%x)" % (e(), r.randrange(32), (1 << r.randrange(1, 20)) - 1)
        if k == 25:
            return "(((uint32_t)(%s) & 0xffff) | ((uint32_t)(%s) << 16))" % (e(), e())
        if k == 26:
            return "(uint32_t)(((uint64_t)(uint32_t)(%s) * (uint32_t)(%s)) >> 32)" % (e(), e())
        if k == 27:
            return "sw(%s)" % e()
        if k == 28:
            return "clampv(%s)" % e()
        return "(%s %s %s)" % (e(), r.choice(["&&", "||"]), e())

    def func(self, name, simd):
        r = self.r
        o = ["uint64_t %s(uint32_t *A, uint16_t *B, uint8_t *C8, uint32_t p) {" % name]
        vs = ["p"]
        for i in range(r.randint(2, 6)):
            o.append("  %s v%d = %s;" % (r.choice(TYPES), i, self.expr(vs, 2)))
            vs.append("v%d" % i)
        for s in range(r.randint(2, 6)):
            k = r.randrange(9)
            a = r.choice(vs[1:])
            if k < 3:
                o.append("  %s = %s;" % (a, self.expr(vs, 4)))
            elif k == 3:
                n = r.choice([4, 8, 16, 64])
                o.append("  for (int i = 0; i < %d; i++) { %s += %s; B[i] %s %s; }" % (n, a, self.expr(vs + ["i"], 2), r.choice(["=", "+=", "^="]), self.expr(vs + ["i"], 3)))
            elif k == 4:
                o.append("  if (%s) { %s = %s; A[%d] = %s; } else { %s ^= %s; }" % (self.expr(vs, 2), a, self.expr(vs, 3), r.randrange(64), self.expr(vs, 2), a, self.expr(vs, 2)))
            elif k == 5:
                o.append("  { uint64_t q; memcpy(&q, C8 + ((%s) & 127), 8); %s ^= q; q += %s; memcpy(C8 + %d, &q, 8); }" % (self.expr(vs, 1), a, self.expr(vs, 2), r.randrange(200)))
            elif k == 6:
                o.append("  for (int i = 0; i < 32; i++) { A[i] = rol32(A[i + %d], %d) + %s; C8[2 * i] = A[i] >> %d; }" % (r.randrange(32), r.randrange(1, 32), self.expr(vs + ["i"], 2), r.randrange(24)))
            elif k == 7 and simd:
                o.append("  { int32_t t = 0; for (int i = 0; i < 16; i++) t = (uint32_t)t + (uint32_t)((int16_t)B[i] * (int16_t)B[%d + i]); %s += t; }" % (r.randrange(64), a))
            else:
                o.append("  memmove(C8 + %d, C8 + %d, %d); memcpy(A + %d, B + %d, %d);" % (r.randrange(64), r.randrange(64), r.randrange(1, 64), r.randrange(16), r.randrange(16), r.choice([4, 8, 12, 16, 20, 32])))
        o.append("  return (uint64_t)(%s);\n}" % " ^ ".join("(uint64_t)" + v + " * %du" % (2 * i + 1) for i, v in enumerate(vs)))
        return "\n".join(o)


HEAD = r"""
#include <stdint.h>
#include <string.h>
static inline uint32_t rol32(uint32_t x, int n) { return x << n | x >> (32 - n); }
struct bits { unsigned a : 3; int b : 7; unsigned c : 13; int d : 9; };
static uint32_t __attribute__((noinline)) bf(uint32_t x) { struct bits s; memcpy(&s, &x, 4); s.b += s.a; s.c ^= s.d; return s.a * 3 + s.b + s.c * 5u + s.d; }
static uint32_t __attribute__((noinline)) sw(uint32_t x) { switch (x & 15) {
case 0: return x + 1; case 1: return x * 3; case 2: return x ^ 0x55; case 3: return x >> 3; case 4: return x << 4; case 5: return ~x;
case 6: return x - 77; case 7: return x | 0xf0f0; case 8: return x & 0xff; case 9: return 0; case 10: return x * x; case 11: return x / 7; default: return 12345; } }
static int32_t __attribute__((noinline)) clampv(int32_t x) { return x > 32767 ? 32767 : x < -32768 ? -32768 : x; }
"""


def main():
    rounds = int(sys.argv[1]) if len(sys.argv) > 1 else 20
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    with build.Lock():
        exe = build.engine_build(print)
    d = tempfile.mkdtemp(prefix="iss")
    bad = n = 0
    try:
        for k in range(rounds):
            r = random.Random(seed * 100003 + k)
            g = G(r)
            nf = 24
            src = HEAD + "\n".join(g.func("f%d" % i, True) for i in range(nf))
            open(d + "/t.c", "w").write(src)
            subprocess.check_call(["gcc", "-O0", "-w", "-fwrapv", "-fno-strict-aliasing", "-fPIC", "-shared", d + "/t.c", "-o", d + "/t.so"])
            for cpu in ("cortex-m4", "cortex-m0"):
                for opt in ("-O0", "-O1", "-O2", "-O3", "-Os"):
                    subprocess.check_call(["arm-none-eabi-gcc", "-mthumb", "-mcpu=" + cpu, "-mfloat-abi=soft", opt, "-w", "-fwrapv", "-fno-strict-aliasing",
                                           "-nostartfiles", "-Wl,-T," + V + "/glue/m4/link.ld", "-Wl,--no-warn-rwx-segments", "-Wl,-e,0",
                                           d + "/t.c", "-o", d + "/t.elf", "-lc", "-lgcc"])
                    p = subprocess.run([exe, "isstest", d + "/t.elf", d + "/t.so", str(nf), "6", str(seed + k), "1" if cpu == "cortex-m0" else "0"],
                                       stdout=subprocess.PIPE, text=True)
                    n += nf * 6
                    if p.returncode:
                        bad += 1
                        print("round %d %s %s:\n%s" % (k, cpu, opt, p.stdout[:600]))
                        shutil.copy(d + "/t.c", "/tmp/iss-fail-%d.c" % k)
    finally:
        shutil.rmtree(d)
    print("%d calls, %d programs with differences" % (n, bad))
    return bad != 0


sys.exit(main())
