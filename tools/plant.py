#!/usr/bin/env python3
"""Confirms a planted change under /verif/seeded/<id> in a scratch copy of /repo.

    plant.py diff ID        edits made in the worktree /tmp/pl/ID -> seeded/ID/patch.diff
    plant.py check ID ...   demo on the clean tree, patch, build, tests, demo, our check (--notest, --nocheck)

Nothing here is used by a registered check."""
import json, os, re, shutil, subprocess, sys, time
V = "/verif"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def mk(i):
    d = "/tmp/pl/" + i
    sh("rm -rf %s; mkdir -p /tmp/pl; git clone -q /repo %s" % (d, d)); return d
def diff(i):
    d = "/tmp/pl/" + i
    r = sh("git -C %s diff" % d); assert r.stdout.strip(), "no change"
    os.makedirs(V + "/seeded/" + i, exist_ok=True)
    open(V + "/seeded/%s/patch.diff" % i, "wb").write(subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE).stdout); shutil.rmtree(d)
def check(i, test=True, chk=True, props=None):
    s = V + "/seeded/" + i; d = "/tmp/plc/" + i; meta = json.load(open(s + "/meta.json")); out = {}
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree("/tmp/plc/demo-" + i, ignore_errors=True)
    sh("cp -a /repo %s" % d)
    shutil.copytree(s, "/tmp/plc/demo-" + i, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    demo = "bash /tmp/plc/demo-%s/demo.sh" % i
    t = time.time(); r = sh(demo, cwd=d); out["demo_clean"] = r.returncode; out["demo_s"] = round(time.time() - t, 1)
    if r.returncode: print(r.stdout[-2000:])
    r = sh("git apply %s/patch.diff" % s, cwd=d)
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); return
    if test:
        py = open("/opt/vp/saber.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % d)
        open("/tmp/plc/saber-%s.py" % i, "w").write(py)
        r = sh("PYTHONDONTWRITEBYTECODE=1 python3 /tmp/plc/saber-%s.py build" % i); out["build"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        r = sh("PYTHONDONTWRITEBYTECODE=1 python3 /tmp/plc/saber-%s.py test /tmp/plc/lines-%s" % (i, i))
        L = open("/tmp/plc/lines-" + i).read().splitlines()
        out["tests"] = "%d pass, %d fail" % (sum(l.startswith("PASS") for l in L), sum(l.startswith("FAIL") for l in L))
    r = sh(demo, cwd=d); out["demo_patched"] = r.returncode
    out["demo_says"] = r.stdout.strip().splitlines()[-1:] 
    if chk:
        for p in props or [meta["property"]]:
            t = time.time()
            r = sh("VERIF_REPO=%s VERIF_BUILD=/tmp/plc/b-%s VERIF_SEED=1 python3 %s/run.py %s quick" % (d, i, V, p))
            out[p] = "%d: %s (%d s)" % (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2] or r.stdout.strip().splitlines()[-1:], time.time() - t)
    for x in (d, "/tmp/plc/b-" + i, "/tmp/plc/demo-" + i): shutil.rmtree(x, ignore_errors=True)
    print(i, meta["property"], json.dumps(out, indent=1), flush=True)
if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    props = [x[2:] for x in sys.argv[2:] if re.match(r"--C\d\d$", x)]
    if sys.argv[1] == "mk": print(mk(a[0]))
    elif sys.argv[1] == "diff": diff(a[0])
    else:
        for i in a: check(i, "--notest" not in sys.argv, "--nocheck" not in sys.argv, props)
