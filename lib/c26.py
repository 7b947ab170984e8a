"""C26: evaluate.py of the Cortex-M0 tree, talking to a stand-in for the board, on generated reports.

The script is written for Python 2 with pyserial: print statements are turned into calls, and the serial port,
the shell commands and the signal handler are stand-ins. The stand-in board sends, each time it is flashed, the
reports of the program that main.c selects at that moment."""
import builtins
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import types

import c19

DIR = "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/"
FILE = DIR + "evaluate.py"
MEM = ("RAM keygen", "RAM encaps", "RAM decaps", "RAM total")
TIME = ("keygen time= ", "encaps time= ", "decaps time= ")


def load(repo):
    with open(os.path.join(repo, FILE)) as f:
        src = f.read()
    with open(os.path.join(repo, DIR + "src/main.c")) as f:
        main = f.read().splitlines(True)
    if len(main) < 13 or not re.match(r"#define\s+SPEED\b", main[12]):  # where the script expects it
        main = ["// line %d\n" % (i + 1) for i in range(12)] + ["#define SPEED\n", "int main(void);\n"]
    code = None
    for s in (src, re.sub(r"^([ \t]*)print[ \t]+(?!\()(.+)$", r"\1print(\2)", src, flags=re.M)):
        try:
            code = compile(s, FILE, "exec")
            break
        except SyntaxError:
            pass
    return types.SimpleNamespace(code=code, main=main)


class Text(str):
    def decode(self, *a):
        return Text(self)


class Stuck(Exception):
    pass


class World:
    def __init__(self, M, c, d):
        self.c, self.dir = c, d
        self.queue = [Text(x) for x in c["stale"]]
        self.log, self.closed, self.opened, self.handler, self.reads, self.bad = [], 0, 0, None, 0, None
        self.flashes = []
        lines = list(M.main)
        if c["left"]:
            lines[12] = "#define MEMSIZE\n"
        self.before = lines
        os.makedirs(d + "/src")
        with open(d + "/src/main.c", "w") as f:
            f.writelines(lines)

    def selected(self):
        with open(self.dir + "/src/main.c") as f:
            t = f.read()
        got = re.findall(r"^[ \t]*#[ \t]*define[ \t]+(MEMSIZE|SPEED)\b", t, re.M)
        return got[-1] if len(set(got)) == 1 else "+".join(got) or "nothing"

    def shell(self, cmd):
        cmd = " ".join(cmd) if isinstance(cmd, (list, tuple)) else cmd
        for part in re.split(r"&&|;|\n", cmd):
            w = part.split()
            if w[:1] == ["make"] and "flash" in w:
                what = self.selected()
                self.flashes.append(what)
                k = len([x for x in self.flashes if x == what]) - 1
                rep = {"MEMSIZE": zip(MEM, self.c["ram"]), "SPEED": zip(TIME, self.c["time"])}.get(what, ())
                self.queue += [Text("%s0x%08X\r\n" % (l, (v + k) & 0xffffffff)) for l, v in rep]
        return 0


def modules(w):
    class Serial:
        def __init__(s, *a, **k):
            w.opened += 1
            baud = k.get("baudrate", a[1] if len(a) > 1 else 9600)
            if baud != 115200:
                w.bad = "the serial port is opened at %r baud" % baud

        def flushInput(s):
            w.queue[:] = []

        reset_input_buffer = flushInput

        def flushOutput(s):
            pass

        reset_output_buffer = flush = flushOutput

        def isOpen(s):
            return w.opened > w.closed

        def readline(s, *a):
            w.reads += 1
            if w.c["stop"] == w.reads and w.handler:
                w.handler(2, None)
            if not w.queue:
                raise Stuck("it waits for a report that never comes (reading %d, after flashing %r)" % (w.reads, w.flashes))
            return w.queue.pop(0)

        def close(s):
            w.closed += 1

        def __enter__(s):
            return s

        def __exit__(s, *a):
            s.close()

    class Popen:
        def __init__(s, cmd, *a, **k):
            s.returncode = w.shell(cmd)

        def wait(s, *a, **k):
            return 0

        def communicate(s, *a, **k):
            return "", ""

        def poll(s):
            return 0

    def call(cmd, *a, **k):
        return w.shell(cmd)

    def done(cmd, *a, **k):
        return types.SimpleNamespace(returncode=w.shell(cmd), stdout="", stderr="")

    def handle(sig, f):
        w.handler = f

    def mod(name, /, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        return m

    ser = mod("serial", Serial=Serial, SerialException=OSError)
    osx = mod("os", **{k: v for k, v in os.__dict__.items() if not k.startswith("__")})
    osx.system = call
    return {"serial": ser, "os": osx, "numpy": mod("numpy"),
            "subprocess": mod("subprocess", Popen=Popen, PIPE=-1, STDOUT=-2, DEVNULL=-3, call=call, check_call=call, run=done,
                              check_output=lambda *a, **k: call(*a, **k) or ""),
            "signal": mod("signal", signal=handle, SIGINT=2, SIGTERM=15),
            "time": mod("time", sleep=lambda s: None, time=lambda: 0.0)}


def g_session(r, i):
    def num():
        return r.choice([r.getrandbits(32), r.getrandbits(r.randint(1, 32)), r.randint(0, 20000), 0, 0xffffffff, 0xABCDEF])
    return {"ram": [num() for _ in MEM], "time": [num() for _ in TIME], "left": r.random() < .3,
            "stale": ["%s0x%08X\r\n" % (r.choice(MEM + TIME), num()) for _ in range(r.choice([0, 0, 1, 3, 8]))],
            "stop": r.choice([0, 0, 0, r.randint(1, 7)])}


LINE = re.compile(r"(RAM|time)\b.*?(key|enc|dec|saber|kem|total).*?=\s*(\d+)\b", re.I)


def r_session(M, c):
    if M.code is None:
        return None, False  # beyond the stand-in
    d = tempfile.mkdtemp(prefix="c26-")
    here = os.getcwd()
    w = World(M, c, d)
    mods = modules(w)
    out = io.StringIO()

    def imp(name, *a, **k):
        return mods[name] if name in mods else builtins.__import__(name, *a, **k)
    env = {"__name__": "__main__", "__file__": "evaluate.py", "__builtins__": dict(builtins.__dict__, __import__=imp)}
    code = None
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(out):
            try:
                exec(M.code, env)
                code = 0
            except SystemExit as e:
                code = e.code or 0
            except Stuck as e:
                return str(e), True
        with open(d + "/src/main.c") as f:
            after = f.read().splitlines(True)
    except AttributeError as e:
        if "module" in str(e):
            return None, False  # more of a module than the stand-in has
        raise
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    if w.bad:
        return w.bad, True
    if w.opened != 1 or w.closed < 1:
        return "the serial port was opened %d times and closed %d times" % (w.opened, w.closed), True
    if code:
        return "it exits with %r" % code, True
    got = [(m.group(1).lower(), m.group(2).lower(), int(m.group(3))) for m in map(LINE.search, out.getvalue().splitlines()) if m]
    want = list(zip(("ram",) * 4 + ("time",) * 3, ("key", "enc", "dec", "total", "key", "enc", "dec"), c["ram"] + c["time"]))
    if c["stop"]:
        want = want[:c["stop"] - 1]
    if len(got) != len(want):
        return "%d results printed, expected %d: %s" % (len(got), len(want), out.getvalue()[:300]), True
    for g, x in zip(got, want):
        if g[0] != x[0] or g[2] != x[2] or (x[1] == g[1]) < (x[1] != "total") or x[1] == "total" and g[1] in ("key", "enc", "dec"):
            return "the board reported %s %s = %d, the script printed %s %s = %d" % (x + g), True
    for a, b in zip(w.before, after):
        if a != b and (not re.match(r"#define\s+(MEMSIZE|SPEED)\s*$", a) or not re.match(r"#define\s+(MEMSIZE|SPEED)\s*$", b)):
            return "main.c: %r became %r" % (a, b), True
    if len(after) != len(w.before):
        return "main.c has %d lines instead of %d" % (len(after), len(w.before)), True
    if not c["stop"] and w.flashes[-1:] != ["SPEED"]:
        return "the board was last flashed with %r" % w.flashes[-1:], True
    return None, True


CHECKS = {"session": (g_session, r_session, "the script runs on the stand-in", 2000, 60000)}
ASSUME = ["Python 2, pyserial, make and the board are replaced by stand-ins; a script that needs more of them is not decided"]


def use():
    c19.use("C26", CHECKS, load, ASSUME)
