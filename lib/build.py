"""Builds the code under test from /repo's working tree into /verif/build.

Every build is keyed by a digest of what goes into it (sources, flags, glue), so nothing stale is
ever used. Parameter sets are selected by editing the '#define' lines, as the README tells users."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 4
LEVELS = {"LightSaber": 2, "Saber": 3, "FireSaber": 4}
ENV = dict(os.environ, LC_ALL="C")
for v in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "MFLAGS", "CC"):
    ENV.pop(v, None)


class BuildError(Exception):
    pass


def choose(text, macro, value):
    found = 0

    def line(m):
        nonlocal found
        on = m.group(2) == value
        found += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)

    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text,
                  flags=re.M)
    if found != 1:
        raise BuildError("expected one '#define %s %s' line, found %d" % (macro, value, found))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro,
                      ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise BuildError("expected one '#define %s' line, found %d" % (macro, n))
    return text


# ------------------------------------------------------------------ host configurations
CONFS = os.environ.get("VERIF_CONFS", "")  # development only: restrict to builds whose name matches


def host_configs():
    return [c for c in all_host_configs() if re.search(CONFS, c["id"])]


def all_host_configs():
    out = []

    def conf(ident, src, edits, family, lanes=1, prog="PQCgenKAT_kem", **par):
        out.append(dict(id=ident, src=src, edits=edits, family=family, lanes=lanes, prog=prog,
                        kind="host", **par))

    for name, k in LEVELS.items():
        conf("Reference/" + name, "Reference_Implementation_KEM",
             {"SABER_params.h": [(choose, "SABER_L", str(k))]}, "ref", L=k, uni=0, n90=0)
        conf("AVX/" + name, "AVX_Implementation_KEM",
             {"api.h": [(choose, "SABER_TYPE", name)]}, "avx", L=k, uni=0, n90=0)
        for n90 in (0, 1):
            alg = name + ("-90s" if n90 else "")
            conf("uSaber-90s-avx2/" + alg, "Variants/uSaber-90s/avx2",
                 {"api.h": [(choose, "SABER_TYPE", name)],
                  "SABER_params.h": [(switch, "Saber90s", bool(n90))]}, "vavx",
                 L=k, uni=0, n90=n90)
            for uni in (0, 1):
                alg2 = ("u" if uni else "") + alg
                conf("uSaber-90s-ref/" + alg2, "Variants/uSaber-90s/ref",
                     {"SABER_params.h": [(choose, "SABER_L", str(k)),
                                         (switch, "uSaber", bool(uni)),
                                         (switch, "Saber90s", bool(n90))]}, "uref",
                     L=k, uni=uni, n90=n90)
    conf("SaberX4-avx2/Saber", "Variants/SaberX4_avx2", {}, "x4", lanes=4, prog="test_kex",
         L=3, uni=0, n90=0)
    return out


SKIP_SUFFIX = (".o", ".a", ".d", ".elf", ".bin", ".hex", ".map", ".lst", ".req", ".rsp", ".pyc")


def read_tree(root):
    files = {}
    for base, dirs, names in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ("obj", "__pycache__"))
        for name in sorted(names):
            path = os.path.join(base, name)
            if name.startswith("._") or name.endswith(SKIP_SUFFIX) or not os.path.isfile(path):
                continue
            with open(path, "rb") as f:
                data = f.read()
            if data[:4] != b"\x7fELF":
                files[os.path.relpath(path, root)] = data
    return files


def apply_edits(files, edits):
    for name, todo in edits.items():
        if name not in files:
            raise BuildError(name + " is missing")
        text = files[name].decode("utf-8", "surrogateescape")
        for fn, *args in todo:
            text = fn(text, *args)
        files[name] = text.encode("utf-8", "surrogateescape")


def write_tree(files, dest):
    shutil.rmtree(dest, ignore_errors=True)
    for name, data in files.items():
        path = os.path.join(dest, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)


def sh(cmd, cwd=None, check=True, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    text = r.stdout.decode(errors="replace")
    if check and r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), text[-4000:]))
    return r.returncode, text


def project_sources(dest, prog):
    """The C files the project's own Makefile links into its program."""
    _, text = sh(["make", "-n", "-B", "-C", dest, "test/" + prog])
    srcs = []
    for line in text.splitlines():
        toks = line.split()
        if "-o" not in toks or toks[toks.index("-o") + 1] != "test/" + prog:
            continue
        for t in toks:
            if t.startswith("test/") or t.startswith("-"):
                continue
            if t.endswith(".o"):
                t = t[:-2] + ".c"
            if t.endswith(".c") and os.path.exists(os.path.join(dest, t)) and t not in srcs:
                srcs.append(t)
    if not srcs:
        raise BuildError("no sources found for %s in %s" % (prog, dest))
    return srcs


FLAVOURS = {
    "plain": ["gcc", "-O3", "-fomit-frame-pointer", "-march=native"],
    "asan": ["gcc", "-O1", "-g1", "-fno-omit-frame-pointer", "-march=native",
             "-fsanitize=address", "-fsanitize=bounds,shift-exponent,integer-divide-by-zero,null",
             "-fsanitize-trap=bounds,shift-exponent,integer-divide-by-zero,null"],
    "vg": ["gcc", "-O3", "-g1", "-fomit-frame-pointer", "-march=haswell", "-B" + VERIF + "/glue/ctas"],
    "cov": ["clang", "-O1", "-g1", "-march=native",
            "-fsanitize-coverage=trace-pc-guard,trace-cmp"],
}

STRICT = ["-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types",
          "-Werror=int-conversion"]
LIBC_OK = re.compile(r"^(mem\w+|str\w+|__stack_chk_fail|_GLOBAL_OFFSET_TABLE_|__asan_\w+|__tls_get_addr"
                     r"|__sanitizer_\w+)$")


def digest_of(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, dict):
            for k in sorted(p):
                h.update(repr((k, p[k])).encode())
        elif isinstance(p, bytes):
            h.update(p)
        else:
            h.update(repr(p).encode())
    return h.hexdigest()


def syms(path, undefined):
    _, text = sh(["nm", "-u" if undefined else "--defined-only", "-P", path])
    res = set()
    for l in text.splitlines():
        f = l.split()
        if len(f) >= 2:
            if not undefined and not (f[1].isupper() or f[1] in "vw"):
                continue
            res.add(f[0].split("@")[0])
    return res


_obj_locks = {}
_obj_guard = threading.Lock()


def compile_obj(cmd, src, obj, cwd=None, check=True):
    """Compiles one file; objects with the same preprocessed text and flags are built once."""
    rc, text = sh(cmd + ["-E", "-P", src, "-o", obj + ".i"], cwd=cwd, check=check)
    if rc:
        return rc, text
    with open(obj + ".i", "rb") as f:
        pre = f.read()
    os.remove(obj + ".i")
    flags = [c for i, c in enumerate(cmd) if c != "-I" and (i == 0 or cmd[i - 1] != "-I")
             and not c.startswith("-D")]
    key = digest_of(pre, flags, _tool)
    cached = os.path.join(BUILD, "objs", key + ".o")
    with _obj_guard:
        lock = _obj_locks.setdefault(key, threading.Lock())
    with lock:
        if not os.path.exists(cached):
            os.makedirs(os.path.dirname(cached), exist_ok=True)
            rc, text = sh(cmd + ["-c", src, "-o", cached + ".tmp"], cwd=cwd, check=check)
            if rc:
                return rc, text
            os.rename(cached + ".tmp", cached)
    shutil.copyfile(cached, obj)
    return 0, ""


def toolstamp():
    _, a = sh(["gcc", "-march=native", "-Q", "--help=target"], check=False)
    return digest_of(a)


_tool = None
_the_pool = None


def _pool():
    global _the_pool
    if _the_pool is None:
        _the_pool = ThreadPoolExecutor(JOBS)
    return _the_pool


def build_host(conf, flavour, log):
    global _tool
    if _tool is None:
        _tool = toolstamp()
    files = read_tree(os.path.join(REPO, conf["src"]))
    apply_edits(files, conf["edits"])
    glue = read_tree(os.path.join(VERIF, "glue"))
    cc = FLAVOURS[flavour]
    out = os.path.join(BUILD, flavour, conf["id"].replace("/", "__"))
    stamp = digest_of(files, glue, cc, _tool, conf["family"], __file__ and open(__file__, "rb").read())
    so = out + "/lib.so"
    try:
        with open(out + "/stamp") as f:
            if f.read() == stamp and os.path.exists(so):
                conf["skipped"] = open(out + "/skipped").read().split()
                return so
    except OSError:
        pass
    shutil.rmtree(out, ignore_errors=True)
    src = out + "/src"
    write_tree(files, src)
    srcs = project_sources(src, conf["prog"])
    fam = conf["family"]
    avx = ["-msse2avx", "-mavx2"] if fam in ("avx", "vavx", "x4") else []
    if fam == "vavx":
        avx.append("-maes")
    base = cc + avx + ["-fPIC", "-fcommon", "-w", "-I", src]
    if flavour == "cov":
        base = [x for x in base if x != "-msse2avx"]
    objs = []
    procs = []
    for i, s in enumerate(srcs):
        o = "%s/o%d_%s.o" % (out, i, os.path.basename(s)[:-2])
        objs.append(o)
        extra = ["-Drandombytes=vf_real_randombytes"] if os.path.basename(s) == "rng.c" else []
        procs.append((base + extra, s, o))
    list(_pool().map(lambda p: compile_obj(p[0], p[1], p[2], cwd=src), procs))
    gobj = out + "/glue.o"
    fdefs = ["-DVF_FAMILY_%s" % fam, "-DVF_L=%d" % conf["L"], "-DVF_UNI=%d" % conf["uni"],
             "-DVF_N90=%d" % conf["n90"], "-DVF_LANES=%d" % conf["lanes"]]
    gbase = [x for x in base if not x.startswith("-fsanitize")]
    compile_obj(gbase + fdefs, VERIF + "/glue/glue.c", gobj)
    skipped = []
    shobjs = []
    shims = []
    for sfile in sorted(os.listdir(VERIF + "/glue/shims")):
        if not sfile.endswith(".c"):
            continue
        text = open(VERIF + "/glue/shims/" + sfile).read()
        if fam not in re.search(r"FAMILIES: (.*)", text).group(1).split():
            continue
        m = re.search(r"REPLACES: (\S+)", text)
        shims.append((not m, sfile, m and m.group(1)))
    shims.sort()
    for _, sfile, repl in shims:
        if not repl:
            continue
        if repl not in srcs:
            skipped.append(sfile)
            log("note: %s: %s not among the sources; unit shim %s skipped" % (conf["id"], repl, sfile))
            continue
        o = "%s/shim_%s.o" % (out, sfile[:-2])
        rbase = [x for x in base if x != "-w"]
        rc, text = compile_obj(rbase + fdefs, VERIF + "/glue/shims/" + sfile, o, check=False)
        if rc:
            skipped.append(sfile)
            err = [l for l in text.splitlines() if "error" in l] or [""]
            log("note: %s: unit shim %s does not fit this tree (skipped): %s" % (conf["id"], sfile, err[0]))
            continue
        objs[srcs.index(repl)] = o
    defined = set()
    for o in objs + [gobj]:
        defined |= syms(o, False)
    for _, sfile, repl in shims:
        if repl:
            continue
        o = "%s/shim_%s.o" % (out, sfile[:-2])
        rc, text = compile_obj(gbase + fdefs + STRICT, VERIF + "/glue/shims/" + sfile, o, check=False)
        if rc:
            skipped.append(sfile)
            log("note: %s: unit shim %s does not fit this tree (skipped): %s"
                % (conf["id"], sfile, text.strip().splitlines()[0] if text.strip() else ""))
            continue
        bad = [u for u in syms(o, True) if u not in defined and not LIBC_OK.match(u)]
        if bad:
            skipped.append(sfile)
            log("note: %s: unit shim %s skipped, missing %s" % (conf["id"], sfile, bad))
            continue
        shobjs.append(o)
    extra = []
    if flavour == "cov":
        compile_obj(["gcc", "-O2", "-fPIC"], VERIF + "/glue/cmplog.c", out + "/cmplog.o")
        extra = [out + "/cmplog.o", "-Wl,--wrap=memcmp,--wrap=bcmp"]
        cc = ["gcc"]
    sh(cc + ["-shared", "-Wl,-Bsymbolic", "-o", so] + objs + [gobj] + shobjs + extra + ["-lcrypto"])
    with open(out + "/skipped", "w") as f:
        f.write(" ".join(skipped))
    with open(out + "/stamp", "w") as f:
        f.write(stamp)
    conf["skipped"] = skipped
    return so


# ------------------------------------------------------------------ Cortex-M
M4SRC = "Cortex-M_Implementation_KEM/Cortex-M4/src"
M0SRC = "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem"
ARM = ["arm-none-eabi-gcc"]
M4FLAGS = ["-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=soft", "-O3", "-std=gnu11"]


def m4_configs():
    return [c for c in all_m4_configs() if re.search(CONFS, c["id"])]


def all_m4_configs():
    out = []
    for name, k in LEVELS.items():
        for impl in ("m4-tc4kara", "m4-striding"):
            for comp in (0, 1):
                out.append(dict(kind="m4", id="M4/%s/%s%s" % (name, impl, "+compressed" if comp else ""),
                                src="%s/%s/%s" % (M4SRC, name.lower(), impl), family=impl, L=k, comp=comp,
                                edits={"SABER_params.h": [(switch, "SABER_COMPRESS_SECRETKEY", bool(comp))]}))
    return out


def built(out, stamp, product):
    try:
        with open(out + "/stamp") as f:
            return f.read() == stamp and os.path.exists(product)
    except OSError:
        return False


def arm_tool():
    return sh(["arm-none-eabi-gcc", "--version"])[1]


def arm_link(conf, out, srcs, flags, incs, srcdir, log):
    """Objects of the project's sources, plus those unit shims that fit the tree."""
    fam = conf["family"]
    base = ARM + flags + ["-w"] + [x for i in incs for x in ("-I", i)]
    obj = {s: "%s/%s.o" % (out, os.path.basename(s)) for s in srcs}
    list(_pool().map(lambda s: sh(base + ["-c", s, "-o", obj[s]], cwd=srcdir), srcs))
    shims = []
    for f in sorted(os.listdir(VERIF + "/glue/arm")):
        text = open(VERIF + "/glue/arm/" + f).read()
        if fam in re.search(r"FAMILIES: ([^*]*)", text).group(1).split():
            m = re.search(r"REPLACES: (\S+)", text)
            shims.append((f, m and m.group(1)))

    def one(sf):
        f, repl = sf
        o = "%s/shim_%s.o" % (out, f)
        rc, text = sh(base + STRICT + ["-Werror=return-type"] + ["-c", VERIF + "/glue/arm/" + f, "-o", o], cwd=srcdir, check=False)
        if rc and "plain secret keys" not in text:
            err = [l for l in text.splitlines() if "error" in l] or [""]
            log("note: %s: unit shim %s does not fit this tree (skipped): %s" % (conf["id"], f, err[0]))
        return None if rc else o

    res = list(_pool().map(one, shims))
    objs = dict(obj)
    for (f, repl), o in zip(shims, res):
        if o and repl:
            hit = [s for s in srcs if os.path.basename(s) == repl]
            if len(hit) == 1:
                objs[hit[0]] = o
    objs = list(objs.values())
    defined = set()
    for o in objs + [o for (f, repl), o in zip(shims, res) if o and not repl]:
        defined |= arm_syms(o, False)
    for (f, repl), o in zip(shims, res):
        if not o or repl:
            continue
        bad = [u for u in arm_syms(o, True) if u not in defined and not LIBC_OK.match(u) and not u.startswith("__aeabi")]
        if bad:
            log("note: %s: unit shim %s skipped, missing %s" % (conf["id"], f, bad))
            continue
        objs.append(o)
    return objs


def arm_syms(path, undefined):
    _, text = sh(["arm-none-eabi-nm", "-u" if undefined else "--defined-only", "-P", path])
    return {l.split()[0] for l in text.splitlines() if len(l.split()) >= 2
            and (undefined or l.split()[1].isupper() or l.split()[1] in "vw")}


def build_m4(conf, log):
    files = read_tree(os.path.join(REPO, conf["src"]))
    apply_edits(files, conf["edits"])
    glue = read_tree(os.path.join(VERIF, "glue"))
    out = os.path.join(BUILD, "m4", conf["id"].replace("/", "__"))
    elf = out + "/prog.elf"
    stamp = digest_of(files, glue, M4FLAGS, arm_tool(), open(__file__, "rb").read())
    conf["elf"] = elf
    if built(out, stamp, elf):
        return elf
    shutil.rmtree(out, ignore_errors=True)
    write_tree(files, out + "/src")
    g = VERIF + "/glue/m4"
    srcs = sorted(f for f in files if "/" not in f and f.endswith((".c", ".s", ".S")))
    objs = arm_link(conf, out, srcs, M4FLAGS, [".", g], out + "/src", log)
    sh(ARM + M4FLAGS + ["-w", "-I", ".", "-I", g, "-c", g + "/pqm4.c", "-o", out + "/pqm4.o"], cwd=out + "/src")
    sh(ARM + M4FLAGS + ["-nostartfiles", "-Wl,-T," + g + "/link.ld", "-Wl,--no-warn-rwx-segments", "-Wl,-e,0", "-o", elf]
       + objs + [out + "/pqm4.o", "-lc", "-lgcc"])
    with open(out + "/stamp", "w") as f:
        f.write(stamp)
    return elf


M0FLAGS = ["-mthumb", "-mcpu=cortex-m0", "-O3"]


def build_m0_units(log):
    """The firmware's KEM sources with the unit shims, for calls to single functions; no board.
    Returns None where the sources do not link that way (the firmware itself is still checked)."""
    files = read_tree(os.path.join(REPO, M0SRC))
    glue = read_tree(os.path.join(VERIF, "glue"))
    out = os.path.join(BUILD, "m0u")
    elf = out + "/prog.elf"
    stamp = digest_of(files, glue, M0FLAGS, arm_tool(), open(__file__, "rb").read())
    if built(out, stamp, elf):
        return elf
    shutil.rmtree(out, ignore_errors=True)
    write_tree(files, out + "/src")
    _, text = sh(["make", "-n", "-B", "-C", out + "/src", "main.elf"])
    srcs = []
    for t in text.split():
        if t.endswith((".c", ".S", ".s")) and os.path.exists(out + "/src/" + t) and t not in srcs:
            srcs.append(t)
    srcs = [s for s in srcs if os.path.basename(s) not in ("init.c", "prng.c", "uart.c", "benchmark.c", "main.c")]
    try:
        objs = arm_link(dict(id="M0 units", family="m0"), out, srcs, M0FLAGS, ["./include", "./src"], out + "/src", log)
        sh(ARM + M0FLAGS + ["-nostartfiles", "-Wl,-T," + VERIF + "/glue/m4/link.ld", "-Wl,--no-warn-rwx-segments",
                            "-Wl,-e,0", "-o", elf] + objs + ["-lc", "-lgcc"])
    except BuildError as e:
        log("note: unit program for the Cortex-M0 does not build (skipped): %s" % str(e)[-300:])
        return None
    with open(out + "/stamp", "w") as f:
        f.write(stamp)
    return elf


def build_m4s(confs, log):
    with ThreadPoolExecutor(JOBS) as pool:
        list(pool.map(lambda c: build_m4(c, log), confs))
    return confs


GEN = M4SRC + "/saber/m4-striding"


def build_gen(log):
    """The multiplication code as the shipped generator writes it, plain and widened, and the
    committed assembly: (id, elf or None, reason) each."""
    files = read_tree(os.path.join(REPO, GEN))
    glue = read_tree(os.path.join(VERIF, "glue"))
    out = os.path.join(BUILD, "gen")
    stamp = digest_of(files, glue, M4FLAGS, arm_tool(), sh(["python3", "--version"])[1], open(__file__, "rb").read())
    rows = out + "/rows.txt"
    if not built(out, stamp, rows):
        shutil.rmtree(out, ignore_errors=True)
        res = []

        def one(v):
            n, wide = v
            name = "generated-%d%s" % (n, "-widened" if wide else "") if n else "committed"
            d = "%s/%s" % (out, name)
            write_tree(files, d + "/src")
            py = ["python3", "-B"]
            try:
                if n:
                    asm = ["gen.s"]
                    r = subprocess.run(py + ["generate-multiplication.py", str(n)], cwd=d + "/src", env=ENV,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
                    if r.returncode:
                        raise BuildError("generate-multiplication.py %d exits with status %d: %s"
                                         % (n, r.returncode, r.stderr.decode(errors="replace").strip()[-200:]))
                    with open(d + "/src/gen.s", "wb") as f:
                        f.write(r.stdout)
                    if wide:
                        rc, text = sh(py + ["fix-alignment.py", "gen.s"], cwd=d + "/src", check=False)
                        if rc:
                            raise BuildError("fix-alignment.py on the output for %d exits with status %d: %s"
                                             % (n, rc, text.strip()[-200:]))
                else:
                    asm = sorted(f for f in files if "/" not in f and f.endswith((".s", ".S")))
                for a in asm:
                    rc, text = sh(ARM + M4FLAGS + ["-c", a, "-o", "../" + a + ".o"], cwd=d + "/src", check=False)
                    if rc:
                        raise BuildError("%s (%s) does not assemble: %s" % (a, name, text.strip()[:300]))
                g = VERIF + "/glue/m4"
                objs = arm_link(dict(id=name, family="gen"), d, ["poly_mul.c"] + asm, M4FLAGS, [".", g], d + "/src", log)
                elf = d + "/prog.elf"
                rc, text = sh(ARM + M4FLAGS + ["-nostartfiles", "-Wl,-T," + g + "/link.ld", "-Wl,--no-warn-rwx-segments",
                                               "-Wl,-e,0", "-o", elf] + objs + ["-lc", "-lgcc"], check=False)
                if rc:
                    raise BuildError("%s does not link: %s" % (name, text.strip()[-300:]))
                return name, elf, ""
            except BuildError as e:
                return name, "-", " ".join(str(e).split())

        res = list(_pool2(one, [(0, 0), (16, 0), (16, 1), (32, 0), (32, 1)]))
        with open(rows, "w") as f:
            for r in res:
                f.write("\t".join(r) + "\n")
        with open(out + "/stamp", "w") as f:
            f.write(stamp)
    return [l.rstrip("\n").split("\t") for l in open(rows)], out + "/committed/src/fix-alignment.py"


def _pool2(fn, items):
    with ThreadPoolExecutor(JOBS) as pool:
        return list(pool.map(fn, items))


def build_m0(log):
    """The firmware, by the project's own Makefile in a copy of its tree."""
    files = read_tree(os.path.join(REPO, M0SRC))
    out = os.path.join(BUILD, "m0")
    stamp = digest_of(files, arm_tool(), open(__file__, "rb").read())
    elf = out + "/src/main.elf"
    if not built(out, stamp, elf):
        shutil.rmtree(out, ignore_errors=True)
        write_tree(files, out + "/src")
        sh(["make", "-C", out + "/src", "main.elf"])
        with open(out + "/sizes.c", "w") as f:
            f.write('#include <stdio.h>\n#include <stdint.h>\n#include "api.h"\nint main(void){printf("%d %d %d %d",'
                    "(int)CRYPTO_PUBLICKEYBYTES,(int)CRYPTO_SECRETKEYBYTES,(int)CRYPTO_CIPHERTEXTBYTES,(int)CRYPTO_BYTES);}")
        sh(["gcc", "-w", "-I", out + "/src/include", out + "/sizes.c", "-o", out + "/sizes"])
        _, text = sh([out + "/sizes"])
        with open(out + "/sizes.txt", "w") as f:
            f.write(text)
        with open(out + "/stamp", "w") as f:
            f.write(stamp)
    return elf, [int(x) for x in open(out + "/sizes.txt").read().split()]


def build_m0_bench(log):
    """The other programs main.c holds: its line that defines SPEED replaced, as evaluate.py does.
    [(kind, elf)], with a note for one that cannot be made this way."""
    files = dict(read_tree(os.path.join(REPO, M0SRC)))
    main = files.get("src/main.c", b"")
    speed = re.compile(rb"^#define[ \t]+SPEED\b[^\n]*\n", re.M)
    out = os.path.join(BUILD, "m0bench")
    stamp = digest_of(files, arm_tool(), open(__file__, "rb").read())
    res = []
    if len(speed.findall(main)) != 1:
        log("note: main.c of the Cortex-M0 tree has no single line defining SPEED; its benchmark programs are not examined")
        return res
    for kind, line in (("m0mem", b"#define MEMSIZE\n"), ("m0test", b"\n")):
        d = "%s/%s" % (out, kind)
        elf = d + "/src/main.elf"
        if not built(d, stamp, elf):
            shutil.rmtree(d, ignore_errors=True)
            write_tree({**files, "src/main.c": speed.sub(line, main)}, d + "/src")
            try:
                sh(["make", "-C", d + "/src", "main.elf"])
            except BuildError as e:
                log("note: a Cortex-M0 benchmark program does not build and is not examined: %s" % str(e)[-200:])
                continue
            with open(d + "/stamp", "w") as f:
                f.write(stamp)
        res.append((kind, elf))
    return res


def engine_build(log, flags=("-O2", "-march=native"), name="vengine", extra=(), cc="g++", libs=()):
    src = os.path.join(VERIF, "engine")
    files = read_tree(src)
    cpp = sorted(f for f in files if f.endswith(".cpp"))
    stamp = digest_of(files, flags, extra, _tool or toolstamp())
    out = os.path.join(BUILD, name + ".d")
    exe = os.path.join(BUILD, name)
    try:
        with open(out + "/stamp") as f:
            if f.read() == stamp and os.path.exists(exe):
                return exe
    except OSError:
        pass
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    base = [cc, "-std=c++17", "-g1", "-Wall", "-Wno-unused-function", *flags, *extra]

    def one(f):
        sh(base + ["-c", os.path.join(src, f), "-o", "%s/%s.o" % (out, f)])

    with ThreadPoolExecutor(JOBS) as pool:
        list(pool.map(one, cpp))
    sh(base + ["-o", exe] + ["%s/%s.o" % (out, f) for f in cpp]
       + ["-lcrypto", "-ldl", "-lpthread", "-lrt", *libs])
    with open(out + "/stamp", "w") as f:
        f.write(stamp)
    return exe


def build_ctdriver():
    os.makedirs(BUILD + "/ctdriver.tmp", exist_ok=True)
    sh(["gcc", "-O1", "-w", VERIF + "/glue/ct/ctdriver.c", "-o", BUILD + "/ctdriver", "-ldl"])


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + "/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_hosts(confs, flavour, log):
    with ThreadPoolExecutor(JOBS) as pool:
        sos = list(pool.map(lambda c: build_host(c, flavour, log), confs))
    for c, so in zip(confs, sos):
        c["so"] = so
    return confs


if __name__ == "__main__":
    with Lock():
        build_hosts(host_configs(), sys.argv[1] if len(sys.argv) > 1 else "plain", print)
