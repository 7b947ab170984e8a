"""C19: the distribution toolkit of the parameter-selection scripts, on generated laws, against
exact rational arithmetic.

A case is a JSON object: {"check": name, laws as [[x, p], ...] lists, integers}. Probabilities are
floats, so their exact values are rationals and the law of any combination is computed without error;
the code under test may differ by floating-point rounding only."""
import importlib.util
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import warnings
from fractions import Fraction as F

REL = F(1, 10 ** 9)
FILE = "Scripts/Python_Scripts/select_params/proba_util.py"


def load(repo):
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    spec = importlib.util.spec_from_file_location("proba_util", os.path.join(repo, FILE))
    m = importlib.util.module_from_spec(spec)
    with open(os.path.join(repo, FILE)) as f:  # no byte-code cache: the working tree decides
        exec(compile(f.read(), FILE, "exec"), m.__dict__)
    return m


# ---------------------------------------------------------------- exact side
def exact(law):
    return {int(x): F(p) for x, p in law}


def conv(A, B):
    C = {}
    for a, p in A.items():
        for b, q in B.items():
            C[a + b] = C.get(a + b, 0) + p * q
    return C


def prod(A, B):
    C = {}
    for a, p in A.items():
        for b, q in B.items():
            C[a * b] = C.get(a * b, 0) + p * q
    return C


def power(A, i):
    """i-fold sum by one big-integer power (Kronecker substitution)."""
    if i == 0:
        return {0: F(1)}
    lo, den = min(A), 1
    for p in A.values():
        den = max(den, p.denominator)  # floats: powers of two
    bits = (sum(int(p * den) for p in A.values()) ** i).bit_length() + 1
    n = sum(int(p * den) << ((x - lo) * bits) for x, p in A.items())
    n = n ** i
    full = den ** i
    raw = n.to_bytes((n.bit_length() + 7) // 8 + bits // 8 + 9, "little")
    C = {}
    for k in range((max(A) - lo) * i + 1):
        o = k * bits
        v = int.from_bytes(raw[o // 8:(o + bits + 7) // 8 + 1], "little") >> (o % 8)
        v &= (1 << bits) - 1
        if v:
            C[lo * i + k] = F(v, full)
    return C


def remove_dep(A, B, m):
    norm = {}
    for a, p in A.items():
        norm[a % m] = norm.get(a % m, 0) + p
    C = {}
    for a, p in A.items():
        for b, q in B.items():
            if (a - b) % m == 0 and norm[a % m]:
                C[a - b] = C.get(a - b, 0) + p * q / norm[a % m]
    return C


def nearest(num, den):
    """the integers nearest to num/den"""
    f = num // den
    r = 2 * (num - f * den)
    return [f] if r < den else [f + 1] if r > den else [f, f + 1]


def centred(x, q):
    a = x % q
    return {a} if 2 * a < q else {a - q} if 2 * a > q else {a, a - q}


def tail(D, t):
    return sum((p for x, p in D.items() if abs(x) > t), F(0))


# ---------------------------------------------------------------- comparison
def same_law(what, got, want, floor=F(0), rel=REL):
    if not isinstance(got, dict):
        return "%s: result is %r, not a law" % (what, type(got))
    for x in set(got) | set(want):
        g, w = F(got.get(x, 0)), want.get(x, F(0))
        if abs(g - w) > rel * w + floor:
            return "%s: P[%s] is %.17g, exact value %.17g" % (what, x, float(g), float(w))
    return None


def same(what, got, want, scale=None, floor=F(0)):
    s = abs(want) if scale is None else scale
    if isinstance(got, float) and not math.isfinite(got):
        return "%s: %r, exact value %.17g" % (what, got, float(want))
    if abs(F(got) - want) > REL * s + floor:
        return "%s: %.17g, exact value %.17g" % (what, float(got), float(want))
    return None


# ---------------------------------------------------------------- generators
def gen_law(r, maxn=12, span=None, simple=False):
    span = span or r.choice([2, 5, 20, 300])
    kind = r.randrange(8)
    n = r.randint(1, min(maxn, 2 * span + 1))
    if kind == 0:  # centred binomial
        k = r.randint(1, 6)
        return [[x, math.comb(2 * k, x + k) / 4.0 ** k] for x in range(-k, k + 1)]
    if kind == 1:  # uniform on an interval
        lo = r.randint(-span, span)
        n = 1 << r.randint(0, 3)
        return [[lo + i, 1.0 / n] for i in range(n)]
    if kind == 2:  # one point
        return [[r.randint(-span, span), 1.0]]
    if kind == 3:
        xs = sorted(r.sample(range(-span, 0), min(n, span)))  # negative support only
    elif kind == 4:
        xs = sorted(r.sample(range(1, span + 1), min(n, span)))
    else:
        xs = r.sample(range(-span, span + 1), n)  # any order
    if not simple and r.random() < .3:  # very unbalanced
        ps = [2.0 ** -r.randint(0, 200) for _ in xs]
        ps[r.randrange(len(ps))] = 1.0 - 2.0 ** -20
        return [[x, p] for x, p in zip(xs, ps)]
    w = [r.randint(1, 1 << r.choice([1, 4, 10])) for _ in xs]
    bits = max(1, (sum(w) - 1).bit_length())
    w[0] += (1 << bits) - sum(w)
    return [[x, v / float(1 << bits)] for x, v in zip(xs, w)]


def g_binom(r, i):
    return {"k": r.choice([i % 64, r.randint(0, 480)]), "x": r.choice([0, 1, -1, r.randint(-500, 500), r.randint(-8, 8)])}


def g_switch(r, i):
    if r.random() < .6:
        a = r.randint(1, 13)
        q, p = 1 << a, 1 << r.randint(0, a)
    else:
        q = r.randint(1, 3000)
        p = r.randint(1, q)
    if r.random() < .05:
        q, p = p, q
    return {"q": q, "p": p, "x": r.choice([r.randrange(q), r.randint(-3 * q, 3 * q), q // 2, q - 1, 0])}


def g_two(r, i):
    return {"A": gen_law(r, 20), "B": gen_law(r, 20)}


def g_iter(r, i):
    big = r.random() < .04
    return {"A": gen_law(r, 5, span=r.choice([1, 2, 3, 9]), simple=True), "i": r.randint(64, 300) if big else
            r.choice([i % 34, r.randint(0, 60), 1 << r.randint(0, 5), (1 << r.randint(1, 6)) - 1])}


def g_dep(r, i):
    a = r.randint(0, 5)
    p = 1 << r.randint(0, 4)
    A = gen_law(r, 30, span=r.choice([4, 20, 40]))
    return {"A": A, "B": A if r.random() < .4 else gen_law(r, 30, span=r.choice([4, 20, 40])),
            "q": (p << a) if r.random() < .8 else p * r.randint(1, 40), "p": p}


def g_tail(r, i):
    A = gen_law(r, 30)
    ext = max(abs(x) for x, _ in A)
    t = r.choice([0, ext, ext - 1, ext + 1, r.randint(0, ext + 2), abs(r.choice(A)[0]), r.randint(0, ext + 1)])
    num = max(0, 4 * t + r.choice([0, 0, 0, 1, 2, 3, -1, -2]))
    return {"A": A, "t4": num, "as_float": r.randrange(2)}


def g_one(r, i):
    return {"A": gen_law(r, 30)}


def g_gauss(r, i):
    return {"s": r.choice([.5, 1., 3.7, r.uniform(.01, 50)]), "t": r.choice([0., 1., r.uniform(0, 200)])}


def g_pipe(r, i):
    q = 1 << r.randint(5, 9)
    lp = r.randint(2, q.bit_length() - 2)
    return {"mu": r.randint(1, 4), "q": q, "p": 1 << lp, "T": 1 << r.randint(1, lp), "m": r.randint(1, 10)}


# ---------------------------------------------------------------- checks
def r_binom(M, c):
    k, x = c["k"], c["x"]
    want = F(math.comb(2 * k, x + k), 4 ** k) if -k <= x <= k else F(0)
    e = same("centred binomial pdf(%d, %d)" % (k, x), M.centered_binomial_pdf(k, x), want)
    n, j = 2 * k, x + k
    e = e or same("binomial(%d, %d)" % (n, j), M.binomial(n, j), F(math.comb(n, j) if 0 <= j <= n else 0))
    if k <= 60 and not e:
        e = same_law("centred binomial law %d" % k, M.build_centered_binomial_law(k),
                     {v: F(math.comb(2 * k, v + k), 4 ** k) for v in range(-k, k + 1)})
    return e, k > 0


def switch_bounds(q, p):
    """per error value: how many x give it for certain, how many can (ties may be rounded either way)"""
    must, may = {}, {}
    for x in range(q):
        ds = set()
        for y in nearest(p * x, q):
            for z in nearest(q * (y % p), p):
                ds |= centred(x - z % q, q)
        for d in ds:
            may[d] = may.get(d, 0) + 1
        if len(ds) == 1:
            d = ds.pop()
            must[d] = must.get(d, 0) + 1
    return must, may


def r_switch(M, c):
    q, p, x = c["q"], c["p"], c["x"]
    y = M.mod_switch(x, q, p)
    if y not in {v % p for v in nearest(p * x, q)}:
        return "mod_switch(%d, %d, %d) = %r" % (x, q, p, y), True
    if M.mod_centered(x, q) not in centred(x, q):
        return "mod_centered(%d, %d) = %r" % (x, q, M.mod_centered(x, q)), True
    D = M.build_mod_switching_error_law(q, p)
    must, may = switch_bounds(q, p)
    tot = F(0)
    for d in set(D) | set(may):
        g = F(D.get(d, 0)) * q
        tot += g
        lo, hi = must.get(d, 0), may.get(d, 0)
        if g < lo * (1 - REL) or g > hi * (1 + REL):
            return "rounding error law (%d, %d): P[%d]*q is %.12g, must lie in [%d, %d]" % (q, p, d, float(g), lo, hi), True
    return same("rounding error law (%d, %d): total mass" % (q, p), tot / q, F(1)), p < q


def r_conv(M, c):
    A, B = {x: p for x, p in c["A"]}, {x: p for x, p in c["B"]}
    EA, EB = exact(c["A"]), exact(c["B"])
    for f, g, n in ((M.law_convolution, conv, "sum"), (M.law_product, prod, "product")):
        for rep in range(2):  # a second time with the same arguments
            e = same_law("law of the %s" % n, f(A, B), g(EA, EB))
            if e:
                return e, True
        e = same_law("law of the %s with itself" % n, f(A, A), g(EA, EA))
        if e:
            return e, True
    return None, len(A) > 1 and len(B) > 1


def r_iter(M, c):
    A = {x: p for x, p in c["A"]}
    want = power(exact(c["A"]), c["i"])
    # masses below 2^-300 may be dropped on the way
    return same_law("%d-fold sum" % c["i"], M.iter_law_convolution(A, c["i"]), want, floor=F(1, 2 ** 280)), len(A) > 1 and c["i"] > 1


def r_dep(M, c):
    A, B = {x: p for x, p in c["A"]}, {x: p for x, p in c["B"]}
    m = c["q"] // c["p"]
    want = remove_dep(exact(c["A"]), exact(c["B"]), m)
    return same_law("dependency-removing convolution modulo %d" % m,
                    M.convolution_remove_dependency(A, B, c["q"], c["p"]), want), m > 1 and len(A) > 1


def r_tail(M, c):
    A = {x: p for x, p in c["A"]}
    t = F(c["t4"], 4)
    v = int(t) if t.denominator == 1 and not c["as_float"] else float(t)
    want = tail(exact(c["A"]), t)
    e = same("tail_probability(law, %r)" % v, M.tail_probability(A, v), want)
    return e or same("tail_probability(law, %r), again" % v, M.tail_probability(A, v), want), 0 < want < 1


def r_moments(M, c):
    A = {x: p for x, p in c["A"]}
    E = exact(c["A"])
    mean = sum(p * x for x, p in E.items())
    var = sum(p * (x - mean) ** 2 for x, p in E.items())
    e = same("mean", M.distmean(A), mean, sum(p * abs(x) for x, p in E.items()))
    return e or same("variance", M.distvariance(A), var, var + F(1, 10 ** 3) * (1 + mean * mean)), len(A) > 1


def r_clean(M, c):
    A = {x: p for x, p in c["A"]}
    A.update({1000 + i: 2.0 ** e for i, e in enumerate((-299, -298, -301, -302, -340, -1000))})
    got = M.clean_dist(A)
    return same_law("clean_dist", got, {x: F(p) for x, p in A.items() if p > 2.0 ** -300}), True


def r_gauss(M, c):
    from statistics import NormalDist
    s, t = c["s"], c["t"]
    want = math.erf(t / (s * math.sqrt(2)))
    e = same("gaussian_center_weight", M.gaussian_center_weight(s, t), F(want), floor=F(1, 10 ** 14))
    return e or same("gaussian_center_weight against the normal law", M.gaussian_center_weight(s, t),
                     F(2 * NormalDist(0, s).cdf(t) - 1), floor=F(1, 10 ** 9)), t > 0


def r_pipe(M, c):
    """the failure computation of select_params.py on small parameters"""
    q, p, T, m = c["q"], c["p"], c["T"], c["m"]
    D_s = M.build_centered_binomial_law(c["mu"])
    D_e = M.build_mod_switching_error_law(q, p)
    e2 = M.build_mod_switching_error_law(q, T)
    se2 = M.iter_law_convolution(M.law_product(D_s, D_e), m)
    D = M.law_convolution(M.convolution_remove_dependency(se2, se2, q, p), e2)
    X = {v: F(math.comb(2 * c["mu"], v + c["mu"]), 4 ** c["mu"]) for v in range(-c["mu"], c["mu"] + 1)}
    XE = {d: F(v) for d, v in D_e.items()}  # the rounding laws themselves are decided by the check "switch"
    # probabilities are multiples of 1/q up to rounding: make them exact so that the power is cheap
    XE = {d: F(round(v * q), q) for d, v in XE.items()}
    S = power(prod(X, XE), m)
    W = conv(remove_dep(S, S, q // p), {d: F(round(F(v) * q), q) for d, v in e2.items()})
    e = same_law("failure law for q=%d p=%d T=%d m=%d mu=%d" % (q, p, T, m, c["mu"]), D, W, floor=F(1, 2 ** 280), rel=F(1, 10 ** 8))
    return e or same("failure probability", M.tail_probability(D, q / 4.), tail(W, F(q, 4)), floor=F(1, 2 ** 270)), True


CHECKS = {  # name: (generator, run, rule, quick, thorough)
    "binomial": (g_binom, r_binom, "parameter above 0", 1500, 60000),
    "switch": (g_switch, r_switch, "the intermediate modulus is smaller", 400, 12000),
    "combine": (g_two, r_conv, "both laws have more than one value", 3000, 100000),
    "iterate": (g_iter, r_iter, "more than one value and more than one summand", 1200, 30000),
    "dependency": (g_dep, r_dep, "modulus and support above 1", 3000, 100000),
    "tail": (g_tail, r_tail, "the tail is neither empty nor everything", 20000, 600000),
    "moments": (g_one, r_moments, "more than one value", 8000, 200000),
    "clean": (g_one, r_clean, "always", 1000, 20000),
    "gauss": (g_gauss, r_gauss, "bound above 0", 2000, 50000),
    "pipeline": (g_pipe, r_pipe, "always", 120, 4000),
}


PID = "C19"
ASSUME = ["results are compared with exact rationals, relative tolerance 1e-9 (1e-8 for the composed pipeline); "
          "masses below 2^-280 are ignored because the toolkit documents dropping those below 2^-300",
          "a tie in rounding to the nearest integer may go either way"]


def use(pid, checks, loader, assume):
    """the same driver for another property"""
    global PID, CHECKS, load, ASSUME
    PID, CHECKS, load, ASSUME = pid, checks, loader, assume


def run_case(M, c):
    try:
        return CHECKS[c["check"]][1](M, c)
    except Exception as e:  # the code under test raised: not a value
        return "%s: %s" % (type(e).__name__, e), True


def make(seed, name, i):
    r = random.Random("%d/%s/%d" % (seed, name, i))
    c = {"check": name}
    c.update(CHECKS[name][0](r, i))
    return c


def shrink_steps(c):
    for k in sorted(c):
        v = c[k]
        if isinstance(v, list):
            if not v or not isinstance(v[0], list):
                continue
            for j in range(len(v)):
                if len(v) > 1:
                    yield dict(c, **{k: v[:j] + v[j + 1:]})
            for j in range(len(v)):
                for x in (0, v[j][0] // 2 if v[j][0] > 0 else -(-v[j][0] // 2)):
                    if x != v[j][0] and all(x != y for y, _ in v):
                        yield dict(c, **{k: v[:j] + [[x, v[j][1]]] + v[j + 1:]})
                for p in (1.0, .5):
                    if v[j][1] not in (1.0, .5):
                        yield dict(c, **{k: v[:j] + [[v[j][0], p]] + v[j + 1:]})
        elif isinstance(v, int) and v and k not in ("q", "p", "T", "logq", "maxerror"):
            for w in (0, v // 2 if v > 0 else -(-v // 2), v - 1 if v > 0 else v + 1):
                if w != v and (w or k not in ("k", "n")):
                    yield dict(c, **{k: w})
        elif isinstance(v, int) and k in ("q", "p", "T") and v > 1:
            yield dict(c, **{k: v // 2})


def shrink(M, c, deadline):
    why = run_case(M, c)[0]
    moved = True
    while moved and time.time() < deadline:
        moved = False
        for d in shrink_steps(c):
            if time.time() > deadline:
                break
            if d.get("q", 1) < d.get("p", 1) or d.get("p", 1) < d.get("T", 1):
                continue
            if "Ds" in d and abs(sum(p for _, p in d["Ds"]) - 1) > 1e-9:
                continue
            w = run_case(M, d)[0]
            if w:
                c, why, moved = d, w, True
                break
    return c, why


def worker(args):
    repo, seed, name, lo, hi, deadline = args
    M = load(repo)
    n = nt = 0
    fails, seen, sample = [], set(), None
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        c = make(seed, name, i)
        why, nontriv = run_case(M, c)
        n += 1
        if nontriv:
            nt += 1
            seen.add(hash(json.dumps(c, sort_keys=True)))
            sample = sample or json.dumps(c, sort_keys=True)
        if why:
            fails.append((c, why))
            break
    return name, n, seen, fails, sample


def run(repo, verif, tier, seed, wall, only=None):
    t0 = time.time()
    deadline = t0 + wall
    viol, total, distinct, per, samples = [], 0, set(), {}, []
    try:
        load(repo)
    except Exception as e:
        c = {"check": "load"}
        viol.append((c, "the module does not load: %s" % e))
    jobs = []
    if not viol:
        for name, (_, _, _, q, t) in CHECKS.items():
            if only and name != only:
                continue
            n = q if tier == "quick" else t
            step = max(1, min(500, n // 16))
            jobs += [(repo, seed, name, i, min(n, i + step), deadline) for i in range(0, n, step)]
    per = {n: 0 for n in CHECKS}
    failed = {}
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = [(j, pool.apply_async(worker, (j,))) for j in jobs]
        for j, a in res:
            try:
                name, n, seen, fails, sample = a.get(max(1, deadline + 60 - time.time()))
            except mp.TimeoutError:
                failed.setdefault(j[2], (make(seed, j[2], j[3]), "a case in %d..%d does not finish" % (j[3], j[4])))
                continue
            per[name] += n
            total += n
            distinct |= seen
            if sample and sum(s.startswith(name) for s in samples) < 2:
                samples.append(name + ": " + sample[:300])
            if fails and name not in failed:
                failed[name] = fails[0]
        pool.terminate()
    M = load(repo) if failed else None
    for name, (c, why) in failed.items():
        if "does not finish" not in why:
            c, why = shrink(M, c, time.time() + 20)
        viol.append((c, why))
    os.makedirs(verif + "/replays", exist_ok=True)
    for c, why in viol:
        path = "%s/replays/%s-%s-%d.json" % (verif, PID, c["check"], seed)
        with open(path, "w") as f:
            json.dump({"property": PID, "case": c, "why": why}, f, indent=1)
            f.write("\n")
        print("%s %s: %s\n  case %s" % (PID, c["check"], why, json.dumps(c)[:400]))
        print("VIOLATION property=%s replay=%s" % (PID, path))
    ev = {"property": PID, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
        "evaluations": total, "distinct_nontrivial": len(distinct),
        "rule": "; ".join("%s: %s" % (n, v[2]) for n, v in CHECKS.items()), "samples": samples,
        "cases_per_check": per, "time_cap_reached": time.time() > deadline},
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
        "assumptions": ASSUME}
    os.makedirs(verif + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (verif, PID), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed %d: %d cases (%d distinct non-trivial), %.1f s, violations %d" % (PID, tier, seed, total, len(distinct), time.time() - t0, len(viol)))
    return 1 if viol else 0


def replay(repo, path):
    d = json.load(open(path))
    try:
        why = run_case(load(repo), d["case"])[0]
    except Exception as e:
        why = "the module does not load: %s" % e
    print("FAIL " + why if why else "PASS")
    return 1 if why else 0
