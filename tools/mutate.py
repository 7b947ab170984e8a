#!/usr/bin/env python3
"""Mutation sweep (development aid, not used by any registered check).

    mutate.py AREA N SEED [FILE-REGEX]    N random mutants of the area's sources against its checks;
                                          survivors are written to /tmp/mut/AREA.survivors
"""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AREAS = {
    "ref": ("Reference_Implementation_KEM", "^Reference/", "C02 C03 C04 C06 C07 C08 C09 C10 C15 C12 C11 C14"),
    "avx": ("AVX_Implementation_KEM", "^AVX/", "C02 C03 C04 C06 C07 C08 C09 C10 C15 C12 C11 C14"),
    "uref": ("Variants/uSaber-90s/ref", "^uSaber-90s-ref/", "C02 C03 C04 C06 C07 C08 C09 C10 C15 C12 C11 C14"),
    "vavx": ("Variants/uSaber-90s/avx2", "^uSaber-90s-avx2/", "C02 C03 C04 C06 C07 C08 C09 C10 C15 C12 C11 C14"),
    "x4": ("Variants/SaberX4_avx2", "^SaberX4", "C16 C02 C03 C04 C06 C07 C08 C09 C10 C15 C12 C11 C14"),
    "m4": ("Cortex-M_Implementation_KEM/Cortex-M4/src/saber", "^M4/(Saber|FireSaber)", "C17 C06 C07 C08 C15 C12 C11 C14"),
    "m0": ("Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem", "^M0", "C18 C02 C03 C04 C06 C07 C08 C09 C15 C12 C11 C14"),
    "law": ("Scripts/Python_Scripts/select_params/proba_util.py", "^$", "C19"),
    "select": ("Scripts/Python_Scripts/select_params/select_params.py", "^$", "C21"),
    "gen": ("Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-tc4kara", "^$", "C20"),
}
OPS = [(r"(?<![+\w])\+(?![+=])", "-"), (r"(?<![-\w>])-(?![-=>\d])", "+"), (r"(?<!&)&(?![&=])", "|"), (r"(?<!\|)\|(?![|=])", "&"),
       (r"(?<!\^)\^(?!=)", "|"), (r"<<(?!=)", ">>"), (r">>(?!=)", "<<"), (r"(?<![<])<(?![<=])", "<="), (r"(?<![->])>(?![>=])", ">="),
       (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"\+=", "-="), (r"-=", "+="), (r"\|=", "="), (r"\^=", "|="), (r"&=", "|="),
       (r"\*(?=\s*\d)", "+"), (r"~", ""), (r"<<=", ">>="), (r"uint64_t", "uint32_t"), (r"uint32_t", "uint16_t"), (r"uint16_t", "uint8_t"),
       (r"int16_t", "int8_t"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\band\b", "or"), (r"\bor\b", "and"),
       (r"smlabb", "smlabt"), (r"smulbb", "smulbt"), (r"uadd16", "usub16"), (r"usub16", "uadd16"), (r"pkhbt", "pkhtb"), (r"\badds?\b", "sub"), (r"\bsub\b", "add"),
       (r"srli_epi16", "srai_epi16"), (r"add_epi16", "sub_epi16"), (r"sub_epi16", "add_epi16")]
def mutants(path, text):
    out, depth, infn = [], 0, False
    lines = text.split("\n")
    py, asm = path.endswith(".py"), path.endswith((".s", ".S"))
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s; continue
        if s.startswith("/*") and "*/" not in s: comment = True; continue
        if not s or s.startswith(("//", "/*", "*", "@", '"""')) or (s.startswith("#") and (py or asm or not s.startswith("#define"))): continue
        if len(re.findall(r"0x|\b\d", s)) > 6: # tables
            if random.random() > 0.05: continue
        if path.endswith(".h") and "(" in s and s.endswith(";"): continue
        code = l.split("//")[0].split("/*")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code): out.append((i, code[:m.start()] + rep + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=[uUlL]*\b)", code):
            v = int(m.group(1), 0)
            for w in {v + 1, v - 1 if v else 2}:
                out.append((i, code[:m.start()] + str(w) + code[m.end():]))
        if s.endswith(";") and not re.match(r"^(static|const|return|u?int|unsigned|struct|typedef|size_t|extern|\})", s) or asm:
            out.append((i, re.match(r"\s*", l).group(0) + ("" if asm else ";")))
        if py and "=" in s and not s.startswith(("def", "if", "for", "while", "return")):
            out.append((i, re.match(r"\s*", l).group(0) + "pass"))
    return out
def main():
    area, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else ""
    d, confs, props = AREAS[area]
    random.seed(seed)
    root = "/repo/" + d
    files = []
    if os.path.isfile(root): files = [d]
    for base, _, names in os.walk(root):
        for x in names:
            p = os.path.relpath(base + "/" + x, "/repo")
            if "/test/" in p or "Libraries" in p or os.path.islink("/repo/" + p): continue
            if x.endswith((".c", ".h", ".s", ".S", ".inc")) and area != "gen" or area == "gen" and x.endswith(".py"): files.append(p)
    files = [f for f in files if re.search(rx, f)]
    allm = []
    for f in sorted(files):
        ms = mutants(f, open("/repo/" + f, errors="replace").read())
        random.shuffle(ms)
        allm += [(f, m) for m in ms[:max(8, n * 3 // len(files))]]
    random.shuffle(allm)
    allm = allm[:n]
    nw = int(os.environ.get("MUT_JOBS", "8"))
    os.makedirs("/tmp/mut", exist_ok=True)
    free, lock, t0 = list(range(nw)), threading.Lock(), time.time()
    stat = {}
    for k in free:
        w = "/tmp/mut/%s%d" % (area, k)
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
    def one(job):
        f, (i, new) = job
        with lock: k = free.pop()
        w = "/tmp/mut/%s%d" % (area, k)
        try:
            p = w + "/" + f
            orig = open(p, errors="surrogateescape").read()
            L = orig.split("\n"); old = L[i]; L[i] = new
            open(p, "w", errors="surrogateescape").write("\n".join(L))
            res = "SURVIVED"
            for q in props.split():
                env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=w + "-b", VERIF_CONFS=confs, VERIF_SEED="1", VF_NOSHRINK="1", VERIF_WALL="100")
                extra = [] if q in ("C19", "C21") else ["--workers", "1", "--scale", os.environ.get("MUT_SCALE", "0.05")]
                try:
                    r = subprocess.run([sys.executable, V + "/run.py", q, "quick"] + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + q; break
                if r.returncode == 1: res = "killed " + q; break
                if r.returncode != 0: res = "nobuild" if "cannot build" in r.stdout else "RC%d %s %s" % (r.returncode, q, r.stdout[-300:]); break
            open(p, "w", errors="surrogateescape").write(orig)
        finally:
            with lock: free.append(k)
        with lock:
            stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
            if not res.startswith(("killed", "nobuild")):
                with open("/tmp/mut/%s.survivors" % area, "a") as o: o.write("%s %s:%d\n  - %s\n  + %s\n" % (res, f, i + 1, old.strip(), new.strip()))
            print(res[:60], "%s:%d" % (f, i + 1), "|", new.strip()[:90], "| %d/%d %.0f s" % (sum(stat.values()), len(allm), time.time() - t0), stat, flush=True)
    with ThreadPoolExecutor(nw) as ex: list(ex.map(one, allm))
    for k in range(nw):
        for x in ("", "-b"): shutil.rmtree("/tmp/mut/%s%d%s" % (area, k, x), ignore_errors=True)
main()
