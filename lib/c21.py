"""C21: the parameter search (select_params.py) on generated laws, moduli and thresholds.

Sage and the lattice estimator are not installed: the estimator is replaced by a table from the case,
indexed by the rounding law the search hands it, so that security against p is an input as well."""
import contextlib
import io
import math
import os
import random
import re
import sys
import types
import warnings

import c19

DIR = "Scripts/Python_Scripts/select_params/"
CLOSE = 1e-6


def log_(x, base=None):
    if base == 2 and x and float(x) == int(x) and int(x) & (int(x) - 1) == 0:
        return int(x).bit_length() - 1  # exact, as Sage's
    return math.log(x) if base is None else math.log(x, base)


def stub(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


def load(repo):
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    prob = types.ModuleType("proba_util")
    with open(os.path.join(repo, DIR + "proba_util.py")) as f:
        exec(compile(f.read(), "proba_util.py", "exec"), prob.__dict__)
    state = {}
    names = {}

    def instance(method, n, q, m, D_e, D_s, **k):
        return state["estimator"](method, n, q, m, D_e, D_s)

    names["initialize_from_LWE_instance"] = instance
    names["DBDD_predict"] = "predict"

    def fake_load(path):
        M.__dict__.update(names)

    saved = dict(sys.modules)
    sage_all = stub("sage.all", load=fake_load, log=log_, sqrt=math.sqrt, exp=math.exp, floor=math.floor)
    plt = stub("matplotlib.pyplot")
    mods = {"proba_util": prob, "sage": stub("sage", all=sage_all), "sage.all": sage_all,
            "matplotlib": stub("matplotlib", pyplot=plt), "matplotlib.pyplot": plt, "numpy": stub("numpy")}
    sys.modules.update(mods)
    try:
        M = types.ModuleType("select_params")
        M.__dict__["__name__"] = "select_params"
        with open(os.path.join(repo, DIR + "select_params.py")) as f:
            exec(compile(f.read(), "select_params.py", "exec"), M.__dict__)
    finally:
        for k in mods:
            if k in saved:
                sys.modules[k] = saved[k]
            else:
                del sys.modules[k]
    M.__dict__["_prob"], M.__dict__["_state"] = prob, state
    return M


# ---------------------------------------------------------------- reference
def fconv(A, B):
    """sum of independent variables; laws as (lowest value, [probabilities])"""
    lo, a = A
    lb, b = B
    c = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                c[i + j] += x * y
    return lo + lb, c


def dense(law):
    lo, hi = min(law), max(law)
    return lo, [law.get(x, 0.0) for x in range(lo, hi + 1)]


def fpower(A, n):
    """n-fold sum (recursive halving); all terms are positive, so rounding stays relative"""
    if n == 1:
        return A
    h = fpower(A, n // 2)
    r = fconv(h, h)
    r = fconv(r, A) if n % 2 else r
    lo, v = r
    while len(v) > 1 and v[0] < 1e-200:
        lo, v = lo + 1, v[1:]
    while len(v) > 1 and v[-1] < 1e-200:
        v = v[:-1]
    return lo, v


class Failure:
    """log2 of 256 times the probability that a coefficient is decided wrongly"""

    def __init__(self, prob, Ds, q, p, kn):
        De = prob.build_mod_switching_error_law(q, p)
        se = {}
        for x, a in Ds.items():
            for y, b in De.items():
                se[x * y] = se.get(x * y, 0.0) + a * b
        lo, S = fpower(dense(se), kn)
        m = q // p
        R = {}
        for r in range(m):  # the two sums agree modulo q/p
            xs = [(lo + i, v) for i, v in enumerate(S) if v and (lo + i) % m == r]
            w = math.fsum(v for _, v in xs)
            for a, u in xs:
                for b, v in xs:
                    R[a - b] = R.get(a - b, 0.0) + u * v / w
        self.R, self.q, self.prob = R, q, prob

    def log(self, T):
        e2 = self.prob.build_mod_switching_error_law(self.q, T)
        lo, e = dense(e2)
        n = len(e)
        below = [0.0] * (n + 1)  # mass of the first i
        above = [0.0] * (n + 1)  # mass of the last i
        for i in range(n):
            below[i + 1] = below[i] + e[i]
            above[i + 1] = above[i] + e[n - 1 - i]
        b = self.q // 4
        t = []
        for c, v in self.R.items():
            # c + x > b : x >= b - c + 1 ; c + x < -b : x <= -b - c - 1
            hi = min(n, max(0, lo + n - 1 - (b - c)))
            lw = min(n, max(0, -b - c - lo))
            t.append(v * (above[hi] + below[lw]))
        s = math.fsum(t)
        return math.log2(256 * s) if s else -math.inf


def expected(M, c):
    """per p: list of admissible outcomes, each None or (logT, log failure probability)"""
    Ds = {x: p for x, p in c["Ds"]}
    q, lq = 1 << c["logq"], c["logq"]
    out = {}
    for lp in range(10, lq):
        if c["betas"][lp - 10] * 0.292 < c["minsec"]:
            break
        f = Failure(M._prob, Ds, q, 1 << lp, c["k"] * c["n"])
        opts = []
        for lT in range(1, 2 * lp - lq + 1):
            v = f.log(1 << lT)
            if v > c["maxerror"] + CLOSE:
                continue
            opts.append((lT, v))
            if v < c["maxerror"] - CLOSE:
                break
        else:
            opts.append(None)
        out[lp] = opts
    return out


# ---------------------------------------------------------------- running the search
NUM = r"(-?(?:inf|\d+\.?\d*(?:[eE][-+]?\d+)?))"


def parse(text):
    found = []
    for blk in text.split("-- parameters --")[1:]:
        d = {}
        head = re.search(r"q:\s*%s\s*p:\s*%s\s*T:\s*%s\s*l:\s*%s\s*n:\s*%s" % ((NUM,) * 5), blk)
        if not head:
            raise ValueError("no parameters in %r" % blk[:80])
        for k, v in zip("qpTln", head.groups()):
            d[k] = float(v)
        for k in ("bandwidth b", "bandwidth c", "bandwidth total", "failure probability", "quantum", "classical"):
            m = re.search(k + r":?\s+" + NUM, blk)
            if not m:
                raise ValueError("no %s in %r" % (k, blk[:80]))
            d[k] = float(m.group(1))
        d["pk"] = [float(x) for x in re.findall(r"pk:\s*" + NUM, blk)]
        d["send"] = [float(x) for x in re.findall(r"send:\s*" + NUM, blk)]
        found.append(d)
    return found


def search(M, c):
    Ds = {x: p for x, p in c["Ds"]}
    q, lq, kn = 1 << c["logq"], c["logq"], c["k"] * c["n"]
    wrong = []

    def estimator(method, n, qq, m, D_e, D_s):
        if (n, qq) != (kn, q):
            wrong.append("security estimated for dimension %r modulo %r, expected %d modulo %d" % (n, qq, kn, q))
        if dict(D_s) != dict((x, p) for x, p in c["Ds"]):
            wrong.append("security estimated for another secret law")
        best = None
        for lp in range(10, lq):
            L = M._prob.build_mod_switching_error_law(q, 1 << lp)
            if set(L) == set(D_e) and all(abs(L[x] - D_e[x]) < 1e-9 for x in L):
                best = lp
        if best is None:
            wrong.append("security estimated for an error law that is not the rounding law of any p")
            beta = 0.0
        else:
            beta = c["betas"][best - 10]
        return None, None, stub("dbdd", integrate_q_vectors=lambda *a, **k: None, estimate_attack=lambda *a, **k: (beta, 1.0))

    M._state["estimator"] = estimator
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        M.search_params(Ds, q, c["k"], c["n"], c["minsec"], c["maxerror"])
    if dict(Ds) != {x: p for x, p in c["Ds"]}:
        wrong.append("the secret law was modified")
    return parse(out.getvalue()), wrong


def r_search(M, c):
    want = expected(M, c)
    got, wrong = search(M, c)
    nontriv = any(o != [None] for o in want.values())
    if wrong:
        return wrong[0], nontriv
    kn, lq = c["k"] * c["n"], c["logq"]
    seen = {}
    for d in got:
        lp = int(d["p"])
        if lp in seen or lp not in want:
            return "parameters with p=2^%d reported%s" % (lp, " twice" if lp in seen else ", security %.3f under %.3f" % (c["betas"][lp - 10] * .292 if 10 <= lp < lq else -1, c["minsec"])), nontriv
        seen[lp] = d
    for lp, opts in want.items():
        d = seen.get(lp)
        if d is None:
            if None not in opts:
                return "no parameters reported for p=2^%d, although T=2^%d fails with 2^%.4f (allowed: 2^%s)" % (lp, opts[0][0], opts[0][1], c["maxerror"]), nontriv
            continue
        o = [x for x in opts if x and x[0] == d["T"]]
        if not o:
            return "p=2^%d reported with T=2^%d, expected %s" % (lp, d["T"], opts), nontriv
        lT, v = o[0]
        num = {"q": lq, "p": lp, "T": lT, "l": c["k"], "n": c["n"], "bandwidth b": lp * kn / 8, "bandwidth c": lT * c["n"] / 8,
               "bandwidth total": 2 * lp * kn / 8 + lT * c["n"] / 8 + 32, "quantum": c["betas"][lp - 10] * .265, "classical": c["betas"][lp - 10] * .292}
        for k, x in num.items():
            if abs(d[k] - x) > 1e-9 * (1 + abs(x)):
                return "p=2^%d T=2^%d: %s is reported as %r, expected %r" % (lp, lT, k, d[k], x), nontriv
        for k, x in (("pk", lp * kn / 8 + 32), ("send", lp * kn / 8 + lT * c["n"] / 8)):
            if not d[k] or any(abs(y - x) > 1e-9 * x for y in d[k]):
                return "p=2^%d T=2^%d: %s is reported as %r, expected %r" % (lp, lT, k, d[k], x), nontriv
        f = d["failure probability"]
        if v > -240 and abs(f - v) > CLOSE * (1 + abs(v)):
            return "p=2^%d T=2^%d: failure probability reported as 2^%r, expected 2^%.6f" % (lp, lT, f, v), nontriv
        if v <= -240 and f > -239:
            return "p=2^%d T=2^%d: failure probability reported as 2^%r, expected below 2^-240" % (lp, lT, f), nontriv
    return None, nontriv


def secret_law(r):
    if r.random() < .7:
        k = r.randint(1, 5)
        return [[x, math.comb(2 * k, x + k) / 4.0 ** k] for x in range(-k, k + 1)]
    if r.random() < .3:
        x = r.randint(0, 2)
        return [[x, 1.0]] if x == 0 or r.random() < .5 else [[x, .5], [-x, .5]]
    return c19.gen_law(r, 6, span=r.choice([1, 2, 4]), simple=True)


class _Own:  # the rounding law again, so that the generator does not depend on the code under test
    @staticmethod
    def build_mod_switching_error_law(q, p):
        D = {}
        for x in range(q):
            d = x - (round(x * p / q) % p) * q // p
            d = (d + q // 2) % q - q // 2
            D[d] = D.get(d, 0) + 1. / q
        return D


def near(r, c):
    """a failure threshold that a chosen T (often the last one) meets and the one before does not"""
    lq = c["logq"]
    lp = r.randrange(10, lq)
    f = Failure(_Own, {x: p for x, p in c["Ds"]}, 1 << lq, 1 << lp, c["k"] * c["n"])
    last = 2 * lp - lq
    lT = last if r.random() < .5 else r.randint(1, last)
    v = f.log(1 << lT)
    w = f.log(1 << (lT - 1)) if lT > 1 else v + 2
    if v < -200 or v > 8 or w - v < 1e-4:  # the script drops what is lighter than 2^-300 in each step
        return None
    return v + r.choice([.5, .1, .9]) * min(w - v, 2.0)


def g_search(r, i):
    lq = r.choice([11, 11, 12, 12, 13])
    c = {"Ds": secret_law(r), "logq": lq, "k": r.randint(1, 3), "n": r.choice([1, 2, 3, 5, 8, 16])}
    if c["k"] * c["n"] * max(abs(x) for x, _ in c["Ds"]) > 60:
        c["n"] = r.randint(1, 4)
    betas = sorted((r.choice([r.uniform(50, 900), float(r.randint(50, 900))]) for _ in range(3)), reverse=True)
    if r.random() < .2:
        betas[1] = betas[0]
    c["betas"] = betas
    c["minsec"] = r.choice([0, 0, 0.292 * r.choice(betas), 0.292 * r.choice(betas) + r.choice([-1e-6, 1e-6]), r.uniform(10, 280)])
    c["maxerror"] = -r.choice([r.randint(1, 12), r.randint(5, 60), r.randint(40, 200), r.uniform(1, 30)])
    big = r.random() < .25
    if big:  # sums long enough for failures even at the largest T
        c["logq"] = r.choice([11, 11, 12])
        mx = max(1, max(abs(x) for x, _ in c["Ds"]))
        kn = r.randint(270, 420) // mx
        c["n"] = max(1, kn // c["k"])
    if big or r.random() < .4:
        e = near(r, c)
        if e is not None:
            c["maxerror"] = e
            if r.random() < .7:
                c["minsec"] = 0
    return c


def r_main(M, c):
    calls = []

    def rec(D_s, q, k, n, minsec, maxerror):
        calls.append((dict(D_s), q, k, n, minsec, maxerror))

    old = M.search_params
    M.__dict__["search_params"] = rec
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            M.main()
    finally:
        M.__dict__["search_params"] = old
    want = []
    for mu, k, s, e in ((5, 2, 113, -100), (4, 3, 177, -128), (3, 4, 241, -160)):
        want.append(({x: math.comb(2 * mu, x + mu) / 4.0 ** mu for x in range(-mu, mu + 1)}, 8192, k, 256, s, e))
    if len(calls) != 3:
        return "main searches %d times" % len(calls), True
    for a, b in zip(calls, want):
        if a[1:] != b[1:] or set(a[0]) != set(b[0]) or any(abs(a[0][x] - b[0][x]) > 1e-12 for x in b[0]):
            return "main searches with %r, expected %r" % (a, b), True
    return None, True


def g_real(r, i):
    """the published sets (the first three cases), then the same laws with other thresholds"""
    mu, k, s, e = ((5, 2, 113, -100), (4, 3, 177, -128), (3, 4, 241, -160))[i % 3]
    betas = [s / .292 + 30, s / .292 - 1, 50.0]
    if i > 2:
        betas = sorted((r.uniform(s / .292 - 60, s / .292 + 300) for _ in range(3)), reverse=True)
        e = r.choice([-r.randint(20, 240), e - 10 * r.randint(-3, 6)])
    return {"Ds": [[x, math.comb(2 * mu, x + mu) / 4.0 ** mu] for x in range(-mu, mu + 1)], "logq": 13, "k": k, "n": 256,
            "betas": betas, "minsec": s, "maxerror": e}


def r_real(M, c):
    e, nontriv = r_search(M, c)
    k = c["k"]
    if not e and c["betas"][1] * .292 < c["minsec"] and c["maxerror"] == {2: -100, 3: -128, 4: -160}[k]:
        got = search(M, c)[0]
        if [(d["p"], d["T"]) for d in got] != [(10, {2: 3, 3: 4, 4: 6}[k])]:
            e = "the published parameters of rank %d are not what the search reports: %r" % (k, got)
    return e, nontriv


CHECKS = {
    "search": (g_search, r_search, "at least one p has parameters to report", 600, 12000),
    "published": (g_real, r_real, "the secret laws and ranks of the three published parameter sets; at least one p has parameters to report", 8, 400),
    "main": (lambda r, i: {}, r_main, "always", 1, 1),
}
ASSUME = ["the lattice estimator and Sage are replaced by stand-ins; security estimates do not grow with p",
          "the rounding laws themselves are C19's; decisions within 1e-6 of the failure threshold may go either way"]


def use():
    c19.use("C21", CHECKS, load, ASSUME)
