"""C24: the lattice experiment (sanity_check.sage) on generated sizes, random sources, reductions and schedules.

Sage and fpylll are not installed: the script runs on a small stand-in for the parts of Sage it uses (polynomials
modulo x^n+1, integer matrices, @parallel, Timer). Lattice reduction is an input of the experiment: the case says
from which block size on the stand-in really reduces; before that it returns another basis of the same lattice."""
import ast
import contextlib
import io
import math
import random
import re
import sys
import types
from fractions import Fraction

import c19

FILE = "Scripts/Sage_Scripts/sanity_check.sage"


class Unsupported(Exception):
    """a limit of the stand-in, not of the script"""


# ---------------------------------------------------------------- stand-in for Sage
class Integer(int):
    def __truediv__(self, o):
        if isinstance(o, (int, Fraction)):
            v = Fraction(int(self)) / Fraction(o)
            return Integer(v) if v.denominator == 1 else v
        return NotImplemented

    def __rtruediv__(self, o):
        return Integer(o) / self if isinstance(o, int) else NotImplemented

    def _w(f):
        def g(self, o):
            r = getattr(int, f)(self, int(o)) if isinstance(o, int) else NotImplemented
            return r if r is NotImplemented else Integer(r)
        return g

    for _f in ("add", "radd", "sub", "rsub", "mul", "rmul", "mod", "rmod", "floordiv", "rfloordiv"):
        locals()["__%s__" % _f] = _w("__%s__" % _f)

    def __neg__(self):
        return Integer(int.__neg__(self))

    def __pow__(self, k, m=None):
        return Integer(pow(int(self), int(k), m)) if k >= 0 else Fraction(1, int(self) ** -k)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("integer method " + k)


class Poly:
    def __init__(self, c):
        c = [Integer(x) for x in c]
        while c and not c[-1]:
            c.pop()
        self.c = c

    @staticmethod
    def of(o):
        return o if isinstance(o, Poly) else Poly([o]) if isinstance(o, int) else None

    def __add__(self, o):
        o = Poly.of(o)
        if o is None:
            return NotImplemented
        n = max(len(self.c), len(o.c))
        return Poly([self[i] + o[i] for i in range(n)])

    __radd__ = __add__

    def __neg__(self):
        return Poly([-x for x in self.c])

    def __sub__(self, o):
        return self + -Poly.of(o)

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        if o is None:
            return NotImplemented
        r = [0] * (len(self.c) + len(o.c))
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                r[i + j] += a * b
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = Poly([1])
        for _ in range(k):
            r = r * self
        return r

    def __getitem__(self, i):
        return self.c[i] if 0 <= i < len(self.c) else Integer(0)

    def __iter__(self):
        return iter(self.c)

    def list(self):
        return list(self.c)

    coefficients = list

    def degree(self):
        return len(self.c) - 1

    def __eq__(self, o):
        o = Poly.of(o)
        return o is not None and self.c == o.c

    def __hash__(self):
        return hash(tuple(self.c))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("polynomial method " + k)


class Quotient:
    """polynomials modulo a monic one"""

    def __init__(self, f):
        f = Poly.of(f)
        if f is None or f.degree() < 1 or f.c[-1] != 1:
            raise Unsupported("a modulus that is not monic")
        self.n, self.f = f.degree(), f

    def __call__(self, v):
        if isinstance(v, Elem):
            return v
        if isinstance(v, int):
            v = [v]
        c = list(v)
        if any(isinstance(x, Fraction) and x.denominator != 1 for x in c):
            raise TypeError("no conversion of a rational to integer")
        c = [int(x) for x in c] + [0] * (self.n - len(c))
        while len(c) > self.n:
            t = c.pop()
            for i in range(self.n):
                c[len(c) - self.n + i] -= t * int(self.f.c[i])
        return Elem(self, c)

    def __contains__(self, v):
        return isinstance(v, (Elem, Poly, int))

    def gen(self):
        return self([0, 1])

    def zero(self):
        return self(0)

    def one(self):
        return self(1)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("ring method " + k)


class Elem:
    def __init__(self, R, c):
        self.R, self.c = R, tuple(Integer(x) for x in c)

    def _of(self, o):
        return o if isinstance(o, Elem) else self.R(o) if isinstance(o, (int, Poly)) else None

    def __add__(self, o):
        o = self._of(o)
        return NotImplemented if o is None else Elem(self.R, [a + b for a, b in zip(self.c, o.c)])

    __radd__ = __add__

    def __neg__(self):
        return Elem(self.R, [-a for a in self.c])

    def __sub__(self, o):
        o = self._of(o)
        return NotImplemented if o is None else self + -o

    def __rsub__(self, o):
        return self._of(o) - self

    def __mul__(self, o):
        if isinstance(o, int):
            return Elem(self.R, [a * o for a in self.c])
        o = self._of(o)
        return NotImplemented if o is None else self.R((Poly(self.c) * Poly(o.c)).c)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = self.R(1)
        for _ in range(k):
            r = r * self
        return r

    def __getitem__(self, i):
        return list(self.c)[i]

    def __iter__(self):
        return iter(self.c)

    def __len__(self):
        return len(self.c)

    def list(self):
        return list(self.c)

    def lift(self):
        return Poly(self.c)

    def __eq__(self, o):
        o = self._of(o)
        return o is not None and self.c == o.c

    def __lt__(self, o):
        return self.c < o.c

    def __le__(self, o):
        return self.c <= o.c

    def __gt__(self, o):
        return self.c > o.c

    def __ge__(self, o):
        return self.c >= o.c

    def __hash__(self):
        return hash(self.c)

    def __bool__(self):
        return any(self.c)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("ring element method " + k)


class PolyRing:
    def gen(self, i=0):
        return Poly([0, 1])

    def __call__(self, v):
        return v if isinstance(v, Poly) else Poly([v] if isinstance(v, int) else list(v))

    def __contains__(self, v):
        return isinstance(v, (Poly, int))

    def quotient(self, f, *a):
        return Quotient(f)

    quo = quotient

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("polynomial ring method " + k)


class IntegerRing:
    def __call__(self, v):
        if isinstance(v, Fraction) and v.denominator != 1:
            raise TypeError("no conversion of this rational to integer")
        if isinstance(v, float) and v != int(v):
            raise TypeError("Attempt to coerce non-integral RealNumber to Integer")
        return Integer(v)

    def __contains__(self, v):
        return isinstance(v, int) or isinstance(v, Fraction) and v.denominator == 1

    def __getitem__(self, k):
        return PolyRing()


class Vector(tuple):
    def __new__(cls, v):
        return tuple.__new__(cls, [Integer(x) for x in v])

    def __getitem__(self, i):
        return Vector(tuple.__getitem__(self, i)) if isinstance(i, slice) else tuple.__getitem__(self, i)

    def __add__(self, o):
        return Vector(a + b for a, b in zip(self, o))

    def __sub__(self, o):
        return Vector(a - b for a, b in zip(self, o))

    def __neg__(self):
        return Vector(-a for a in self)

    def __mul__(self, o):
        return Integer(sum(int(a) * int(b) for a, b in zip(self, o))) if isinstance(o, tuple) else Vector(a * o for a in self)

    def __rmul__(self, o):
        return Vector(a * o for a in self)

    def dot_product(self, o):
        return self * o

    inner_product = dot_product

    def norm(self):
        return math.sqrt(self * self)

    def list(self):
        return list(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("vector method " + k)


def bareiss(rows):
    a = [list(map(int, r)) for r in rows]
    n, sign, prev = len(a), 1, 1
    if any(len(r) != n for r in a):
        raise ValueError("self must be a square matrix")
    for k in range(n - 1):
        if not a[k][k]:
            for i in range(k + 1, n):
                if a[i][k]:
                    a[k], a[i], sign = a[i], a[k], -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) // prev
        prev = a[k][k]
    return sign * a[-1][-1] if n else 1


def lll(rows):
    """an LLL-reduced basis (integer arithmetic)"""
    b = [list(map(int, r)) for r in rows]
    n = len(b)
    dot = lambda x, y: sum(p * q for p, q in zip(x, y))
    d = [1] + [0] * n  # determinants of the leading Gram matrices
    lam = [[0] * n for _ in range(n)]

    def gso(k):
        for j in range(k + 1):
            u = dot(b[k], b[j])
            for i in range(j):
                u = (d[i + 1] * u - lam[k][i] * lam[j][i]) // d[i]
            if j < k:
                lam[k][j] = u
            else:
                d[k + 1] = u

    def red(k, l):
        if 2 * abs(lam[k][l]) <= d[l + 1]:
            return
        q = (2 * lam[k][l] + d[l + 1]) // (2 * d[l + 1])
        b[k] = [x - q * y for x, y in zip(b[k], b[l])]
        lam[k][l] -= q * d[l + 1]
        for i in range(l):
            lam[k][i] -= q * lam[l][i]

    gso(0)
    k, kmax = 1, 0
    while k < n:
        if k > kmax:
            kmax = k
            gso(k)
        red(k, k - 1)
        if 100 * (d[k + 1] * d[k - 1] + lam[k][k - 1] ** 2) < 99 * d[k] ** 2:
            b[k], b[k - 1] = b[k - 1], b[k]
            for j in range(k - 1):
                lam[k][j], lam[k - 1][j] = lam[k - 1][j], lam[k][j]
            l = lam[k][k - 1]
            B = (d[k - 1] * d[k + 1] + l * l) // d[k]
            for i in range(k + 1, kmax + 1):
                t = lam[i][k]
                lam[i][k] = (d[k + 1] * lam[i][k - 1] - l * t) // d[k]
                lam[i][k - 1] = (B * t + l * lam[i][k]) // d[k + 1]
            d[k] = B
            k = max(1, k - 1)
        else:
            for l in range(k - 2, -1, -1):
                red(k, l)
            k += 1
    return b


class Matrix:
    def __init__(self, rows, env):
        self._r, self._e = [Vector(r) for r in rows], env
        if len({len(r) for r in self._r}) > 1:
            raise ValueError("list of rows is not valid (rows are wrong types or lengths)")

    def __getitem__(self, i):
        return self._r[i[0]][i[1]] if isinstance(i, tuple) else Vector(self._r[i])

    def __iter__(self):
        return iter(self._r)

    def __len__(self):
        return len(self._r)

    def rows(self):
        return list(self._r)

    def row(self, i):
        return self._r[i]

    def nrows(self):
        return len(self._r)

    def ncols(self):
        return len(self._r[0])

    def det(self):
        return Integer(bareiss(self._r))

    determinant = det

    def LLL(self, **k):
        return self._e.reduce(self, 2, k, True)

    def BKZ(self, **k):
        return self._e.reduce(self, k.get("block_size"), k)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("matrix method " + k)


class Env:
    """one run of the script"""

    def __init__(self, c):
        self.c = c
        self.rnd = random.Random("draws/%s" % c["seed"])
        self.plan = random.Random("plan/%s" % c["seed"])
        self.calls = []  # reductions: [matrix, block size, result, time]
        self.wrong = []
        self.seeded = self.drawn = False
        self.times = set()
        self.strategies = object()
        self.ncpus = None
        self.start = None

    def randrange(self, *a):
        if not self.seeded:
            self.drawn = True
        return Integer(self.rnd.randrange(*[int(x) for x in a]))

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def set_random_seed(self, s=None):
        self.seeded = s is not None

    def reduce(self, M, beta, k, plain=False):
        if not plain and k.get("strategies") is not self.strategies:
            self.wrong.append("BKZ is not given the precomputed strategies")
        if plain != (beta == 2):
            self.wrong.append("BKZ with block size %s" % beta if beta == 2 else "LLL instead of BKZ")
        first = plain or not self.calls or self.calls[-1][2].rows() != M.rows()
        if first:
            self.good_from = self.plan.choice([2, 2, 4, 6, 8, 12, 20, 22, 22])
        if self.c["identity"]:
            rows = list(M.rows())
        elif beta is not None and beta >= self.good_from:
            rows = lll(M.rows())
            if self.plan.random() < .7:
                self.plan.shuffle(rows)
            rows = [r if self.plan.random() < .5 else [-x for x in r] for r in rows]
        else:
            rows = [list(r) for r in M.rows()]
            for _ in range(len(rows)):
                i, j = self.plan.randrange(len(rows)), self.plan.randrange(len(rows))
                s = self.plan.choice([-2, -1, 1, 3])
                if i != j:
                    rows[i] = [x + s * y for x, y in zip(rows[i], rows[j])]
        out = Matrix(rows, self)
        self.calls.append([M, beta, out, None, first])
        return out

    def clock(self):
        while True:
            t = self.plan.randrange(1, 10 ** 9)
            if t not in self.times:
                self.times.add(t)
                return t


def timer_class(env):
    class Timer:
        def __init__(self):
            self.cputime = self.walltime = None
            self.at = None

        def start(self):
            self.at = len(env.calls)
            return self

        def stop(self):
            if self.at is None:
                raise ValueError("timer not started")
            t = env.clock()
            for k in env.calls[self.at:]:
                if k[3] is None:
                    k[3] = t
            self.cputime = t / 1e6
            self.walltime = 1e7 + t
            return self

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Unsupported("timer method " + k)
    return Timer


def preparse(src):
    src = re.sub(r"(?m)^(\s*)(\w+)\.<(\w+)>\s*=\s*(.+)$", r"\1\2 = \4; \3 = \2.gen()", src)
    src = src.replace("ZZ[]", "ZZ['x']")
    out, i, quote = [], 0, None
    while i < len(src):
        ch = src[i]
        if quote:
            if ch == "\\":
                out.append(src[i:i + 2])
                i += 2
                continue
            if src.startswith(quote, i):
                out.append(quote)
                i += len(quote)
                quote = None
                continue
            out.append(ch)
        elif ch == "#":
            j = src.find("\n", i)
            j = len(src) if j < 0 else j
            out.append(src[i:j])
            i = j
            continue
        elif ch in "'\"":
            quote = ch * 3 if src.startswith(ch * 3, i) else ch
            out.append(quote)
            i += len(quote)
            continue
        elif src.startswith("^^", i):
            out.append("^")
            i += 2
            continue
        elif ch == "^":
            out.append("**")
        else:
            out.append(ch)
        i += 1
    return "".join(out)


def load(repo):
    with open(repo + "/" + FILE) as f:
        src = f.read()
    try:
        code = compile(preparse(src), "sanity_check.sage", "exec")
    except SyntaxError as e:
        raise ValueError("%s" % e)
    names = {x.id for x in ast.walk(ast.parse(preparse(src))) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return types.SimpleNamespace(code=code, names=names)


def execute(M, c):
    """the script's output and what it did"""
    env = Env(c)
    order = random.Random("order/%s" % c["order"])

    def parallel(*a, **k):
        def deco(f):
            def run(gen):
                res = []
                for args in gen:
                    if not isinstance(args, tuple):
                        args = (args,)
                    kw = {}
                    if len(args) == 2 and isinstance(args[0], tuple) and isinstance(args[1], dict):
                        args, kw = args
                    res.append(((args, kw), f(*args, **kw)))
                if c["order"]:
                    order.shuffle(res)
                return iter(res)
            return run
        if a and callable(a[0]):
            return deco(a[0])
        env.ncpus = k.get("ncpus", a[0] if a else env.ncpus)
        if len(a) > 1:
            env.ncpus = a[1]
        return deco

    affinity = set(range(c["affinity"]))
    environ = {} if c["cores"] is None else {"CORES": c["cores"]}
    os_ = types.SimpleNamespace(environ=environ, getenv=lambda k, default=None: environ.get(k, default), cpu_count=lambda: c["affinity"])
    if c["has_affinity"]:
        os_.sched_getaffinity = lambda pid: set(affinity) if pid in (0, 4711) else {0, 1, 2, 3, 4}
        os_.getpid = lambda: 4711
    b = (lambda s: s.encode()) if c["bytes"] else (lambda s: s)
    BKZ = types.SimpleNamespace(DEFAULT_STRATEGY=b("/abs/default.json" if c["absolute"] else "default.json"), DEFAULT_STRATEGY_PATH=b("/strategies"))
    want = b("/abs/default.json" if c["absolute"] else "/strategies/default.json")

    def load_json(fn):
        if fn != want:
            env.wrong.append("strategies are loaded from %r, expected %r" % (fn, want))
        return env.strategies

    fp = types.ModuleType("fpylll")
    fp.__dict__.update(BKZ=BKZ, load_strategies_json=load_json)
    util = types.ModuleType("sage.doctest.util")
    util.__dict__["Timer"] = timer_class(env)
    mods = {"fpylll": fp, "sage": types.ModuleType("sage"), "sage.doctest": types.ModuleType("sage.doctest"), "sage.doctest.util": util}
    out = io.StringIO()
    sys_ = types.SimpleNamespace(argv=["sanity_check.sage", str(c["n"]), str(c["q"]), str(c["inputs"])], stdout=out, stderr=io.StringIO(), exit=sys.exit, version_info=sys.version_info)
    from functools import reduce as freduce
    g = {"__name__": "__main__", "sys": sys_, "os": os_, "cpu_count": lambda: c["affinity"], "ZZ": IntegerRing(), "Integer": Integer,
         "set_random_seed": env.set_random_seed, "randrange": env.randrange, "randint": env.randint, "parallel": parallel,
         "proof": types.SimpleNamespace(all=lambda *a: None, arithmetic=lambda *a: None, linear_algebra=lambda *a: None), "matrix": lambda *a: Matrix(a[-1], env),
         "Matrix": lambda *a: Matrix(a[-1], env), "vector": lambda *a: Vector(a[-1]), "det": lambda m: m.det(), "reduce": freduce,
         "sqrt": math.sqrt, "floor": math.floor, "prod": lambda v: freduce(lambda x, y: x * y, v, 1), "mod": lambda a, b: a % b}
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        with contextlib.redirect_stdout(out):
            exec(M.code, g)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return env, out.getvalue()


LINE = re.compile(r"n (\d+) q (\d+) rounding (True|False) m (\d+) d (\d+) beta (\d+) success (True|False) time (\d+\.\d{6})"
                  + "".join(r" %s (\[[-\d,]*\])" % k for k in ("a1", "a2", "e1", "e2", "G11", "G12", "G21", "G22", "A1", "A2")) + r"$")
STAT = re.compile(r"n (\d+) q (\d+) rounding (True|False) m (\d+) d (\d+) beta (\d+) percentage (\d\.\d{9}) numinputs (\d+)$")


def mul(a, b, n):
    r = [0] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[(i + j) % n] += -x * y if i + j >= n else x * y
    return r


def judge(c, env, text):
    n, q = c["n"], c["q"]
    if env.wrong:
        return env.wrong[0]
    if env.drawn:
        return "random values are drawn before the seed is fixed"
    cores = c["affinity"] if c["cores"] is None else int(c["cores"])
    if env.ncpus != max(1, cores):
        return "%r processes are used, expected %d" % (env.ncpus, max(1, cores))
    runs, stats = {}, {}
    for l in text.splitlines():
        m = LINE.match(l)
        s = STAT.match(l)
        if m:
            f = m.groups()
            if (int(f[0]), int(f[1])) != (n, q):
                return "a line for n %s q %s" % f[:2]
            key = (f[2], int(f[3]), int(f[4]), f[8:])
            runs.setdefault(key, []).append((int(f[5]), f[6] == "True", round(float(f[7]) * 1e6)))
        elif s:
            f = s.groups()
            if (int(f[0]), int(f[1])) != (n, q):
                return "statistics for n %s q %s" % f[:2]
            key = (f[2], int(f[3]), int(f[4]), int(f[5]))
            if key in stats:
                return "two statistics for rounding %s m %d d %d beta %d" % key
            stats[key] = (f[6], int(f[7]))
        elif l.strip():
            return "unexpected output %r" % l[:100]
    by_time = {}
    for k, call in enumerate(env.calls):
        if call[4]:
            by_time[call[3]] = k
    ms, betas = list(range(n, 2 * n + 1, 2)), list(range(2, 21, 2))
    count, tally, used = {}, {}, set()
    for (rnd, m, d, polys), lines in runs.items():
        tag = "rounding %s m %d" % (rnd, m)
        if m not in ms or d != m + 1 + 2 * n:
            return "%s: dimension %d" % (tag, d)
        P = [ast.literal_eval(x) for x in polys]
        if any(len(x) != n for x in P):
            return tag + ": a polynomial with a number of coefficients other than n"
        a1, a2, e1, e2, G11, G12, G21, G22, A1, A2 = P
        if any(abs(x) > 2 for x in a1 + a2):
            return "%s: secret coefficients %r %r outside -2..2" % (tag, a1, a2)
        if any(not -4 <= x <= 3 for x in e1 + e2):
            return "%s: errors %r %r outside -4..3" % (tag, e1, e2)
        if any(not 0 <= x < q for g in P[4:] for x in g):
            return tag + ": public coefficients outside 0..q-1"
        for e, A, G, H in ((e1, A1, G11, G21), (e2, A2, G12, G22)):
            Z = [x + y for x, y in zip(mul(a1, G, n), mul(a2, H, n))]
            if rnd == "True" and any((x + y) % 8 for x, y in zip(Z, e)):
                return "%s: errors %r do not round %r to multiples of 8" % (tag, e, Z)
            if [(x + y) % q for x, y in zip(Z, e)] != A:
                return "%s: A=%r is not a1 G + a2 G' + e = %r modulo %d" % (tag, A, [x + y for x, y in zip(Z, e)], q)
        if len(lines) % len(betas):
            return "%s: %d lines for one instance" % (tag, len(lines))
        for g in range(0, len(lines), len(betas)):
            blk = lines[g:g + len(betas)]
            if [x[0] for x in blk] != betas:
                return "%s: block sizes %r" % (tag, [x[0] for x in blk])
            k = by_time.get(blk[0][2])
            if k is None or k in used:
                return "%s: time %.6f at block size 2 is not the time of a reduction from scratch" % (tag, blk[0][2] / 1e6)
            used.add(k)
            e = one(c, env, k, tag, m, d, (a1, a2), (e1, e2), (G11, G12, G21, G22), (A1, A2), blk)
            if e:
                return e
            count[rnd, m] = count.get((rnd, m), 0) + 1
            for beta, s, _ in blk:
                tally.setdefault((rnd, m, d, beta), []).append(s)
    for rnd in ("True", "False"):
        for m in ms:
            if count.get((rnd, m), 0) != c["inputs"]:
                return "rounding %s m %d: %d instances, expected %d" % (rnd, m, count.get((rnd, m), 0), c["inputs"])
    if len(used) != len(by_time):
        return "%d reductions from scratch, %d reported" % (len(by_time), len(used))
    if set(stats) != set(tally):
        return "statistics for %d combinations, expected %d" % (len(stats), len(tally))
    for k, v in tally.items():
        if stats[k] != ("%.9f" % (sum(v) / len(v)), len(v)):
            return "rounding %s m %d d %d beta %d: reported %r, %d of %d succeeded" % (k + (stats[k], sum(v), len(v)))
    return None


def one(c, env, k, tag, m, d, a, e, G, A, blk):
    """the reductions from call k on against the lines of one instance"""
    n, q = c["n"], c["q"]
    M = env.calls[k][0]
    rows = [list(map(int, r)) for r in M.rows()]
    if len(rows) != d or len(rows[0]) != d:
        return "%s: lattice basis of %d rows and %d columns" % (tag, len(rows), len(rows[0]))
    if abs(bareiss(rows)) != q ** m:
        return tag + ": the determinant of the lattice is not q^m"
    # which coefficients were selected: increasing positions explaining the first m columns
    cols = []
    for r in rows:
        z, x1, x2 = r[m], r[m + 1:m + 1 + n], r[m + 1 + n:]
        v = []
        for Ai, g, h in ((A[0], G[0], G[2]), (A[1], G[1], G[3])):
            v += [(z * t - u - w) % q for t, u, w in zip(Ai, mul(x1, g, n), mul(x2, h, n))]
        cols.append(v)
    pos = -1
    for j in range(m):
        pos += 1
        while pos < 2 * n and any((r[j] - v[pos]) % q for r, v in zip(rows, cols)):
            pos += 1
        if pos >= 2 * n:
            return "%s: lattice vectors are not (selected coefficients of z A - a1 G - a2 G' + q r, z, a1, a2)" % tag
    success, total, cur = False, 0, M
    for beta, got, t in blk:
        if not success:
            if k >= len(env.calls) or env.calls[k][1] != beta or env.calls[k][0].rows() != cur.rows():
                return "%s: at block size %d the basis reduced so far is not reduced further" % (tag, beta)
            cur = env.calls[k][2]
            total += env.calls[k][3] or 0
            k += 1
            best = min(r * r for r in cur.rows())
            outcomes = set()
            for r in cur.rows():
                if r * r == best:
                    v = [int(x) for x in r]
                    if v[m] < 0:
                        v = [-x for x in v]
                    outcomes.add(v[m + 1:] == list(a[0]) + list(a[1]))
            if got not in outcomes:
                return "%s: success %s at block size %d, although the shortest vector %s" % (tag, got, beta, "is the secret" if True in outcomes else "is another one")
            success = got
        elif not got:
            return "%s: success is lost at block size %d" % (tag, beta)
        if t != total:
            return "%s: time %.6f reported at block size %d, spent %.6f" % (tag, t / 1e6, beta, total / 1e6)
    return None


def r_run(M, c):
    try:
        env, text = execute(M, c)
    except Unsupported as e:
        return None, False
    except UnboundLocalError:
        raise
    except NameError as e:  # a name of Sage the stand-in lacks
        if e.name in M.names:
            raise
        return None, False
    e = judge(c, env, text)
    nontriv = "success True" in text and "success False" in text
    if not e and c["order"]:
        _, plain = execute(M, dict(c, order=0))
        if plain != text:
            e = "the report depends on the order in which the workers finish"
    return e, nontriv


def g_run(r, i):
    n = r.choice([1, 2, 2, 2, 3])
    return {"n": n, "q": r.choice([8, 16, 24, 32, 64, 64, 128, 128, 256, 256, 512, 1000, 1024, 8192, 2 ** 20]), "inputs": r.choice([1, 1, 2, 3, 4] if n < 3 else [1, 2]),
            "seed": r.randrange(2 ** 40), "order": r.choice([0, r.randrange(1, 1000)]), "identity": False,
            "affinity": r.choice([1, 4, 8]), "has_affinity": r.random() < .8, "cores": r.choice([None, None, "1", "3", "0", "-2", "16"]),
            "bytes": r.random() < .5, "absolute": r.random() < .5}


def g_law(r, i):
    c = g_run(r, i)
    c.update(n=3, q=8192, inputs=100, order=0, identity=True)
    return c


def r_law(M, c):
    try:
        env, text = execute(M, c)
    except (Unsupported, NameError):
        return None, False
    seen = {}
    for l in text.splitlines():
        m = LINE.match(l)
        if m:
            seen[m.group(3), m.groups()[8:]] = None
    A = {k: 0 for k in range(-2, 3)}
    E = {k: 0 for k in range(-4, 4)}
    G = [0] * 8
    na = ne = ng = 0
    done = set()
    for rnd, polys in seen:
        P = [ast.literal_eval(x) for x in polys]
        if polys[:2] + polys[4:8] not in done:
            done.add(polys[:2] + polys[4:8])
            for x in P[0] + P[1]:
                A[x] = A.get(x, 0) + 1
                na += 1
            for g in P[4:8]:
                for x in g:
                    G[x * 8 // c["q"] % 8] += 1
                    ng += 1
        if rnd == "False":
            for x in P[2] + P[3]:
                E[x] = E.get(x, 0) + 1
                ne += 1

    def chi(obs, exp):
        return sum((o - x) ** 2 / x for o, x in zip(obs, exp))

    # 99.99999999 % points lie below 60 for up to 7 degrees of freedom
    for what, obs, exp in (("secret coefficients", [A[k] for k in range(-2, 3)], [na * w / 16 for w in (1, 4, 6, 4, 1)]),
                           ("errors", [E[k] for k in range(-4, 4)], [ne / 8] * 8), ("public coefficients (top three bits)", G, [ng / 8] * 8)):
        if not sum(exp):
            return "no " + what, True
        if sum(obs) and chi(obs, exp) > 60:
            return "%s are distributed like %r, expected %r" % (what, obs, [round(x, 1) for x in exp]), True
    return None, True


CHECKS = {
    "experiment": (g_run, r_run, "some reductions reveal the secret and others do not", 700, 20000),
    "laws": (g_law, r_law, "always", 16, 200),
}
ASSUME = ["Sage and fpylll are replaced by stand-ins (ring arithmetic, determinants, LLL, @parallel, Timer); a script that needs more of Sage is not decided",
          "where several rows are equally short, either may be taken as the shortest"]


def use():
    c19.use("C24", CHECKS, load, ASSUME)
