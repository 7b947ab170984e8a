#!/usr/bin/env python3
"""Runs one property's check: builds what it needs from /repo's working tree, then searches.

usage: run.py <property> [quick|thorough]      exit 0: held, 1: VIOLATION printed, 2: could not run
       run.py --replay FILE                    runs one saved case again
       run.py selftest                         model against the repository's known answers
"""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build  # noqa: E402
import c19  # noqa: E402
import c21  # noqa: E402
import c24  # noqa: E402
import c26  # noqa: E402

VERIF, BUILD = build.VERIF, build.BUILD


def log(msg):
    print(msg, flush=True)


# which builds a property's engine checks run against
NEEDS = {
    "C01": "host cov m4 m0", "C02": "host cov m4 m0", "C03": "host cov m4 m0", "C04": "host cov m4 m0",
    "C05": "host m4 m0", "C06": "host cov m4 m0", "C07": "host cov m4 m0", "C08": "host cov m4 m0",
    "C09": "host cov m0", "C10": "host cov", "C11": "host asan m4 m0", "C12": "host m4 m0", "C13": "host",
    "C14": "vg m4 m0", "C15": "host cov m4 m0", "C16": "x4 cov", "C17": "m4", "C18": "m0", "C20": "gen",
    "C22": "asan", "C23": "x4 asan m0", "C25": "m0bench",
}
UNITS = ("C06", "C07", "C08", "C09", "C15", "C23")  # properties checked on single functions
WALL = {"quick": 150, "thorough": 3000}


def write_targets(prop, path, needs, flavour="plain"):
    confs = build.host_configs() if "host" in needs else []
    if "x4" in needs:
        confs = [c for c in build.host_configs() if c["lanes"] == 4]
    lines = []

    def line(c, so, ident):
        lines.append("kind=host id=%s family=%s path=%s L=%d uni=%d n90=%d lanes=%d"
                     % (ident, c["family"], so, c["L"], c["uni"], c["n90"], c["lanes"]))

    if confs:
        build.build_hosts(confs, flavour, log)
        for c in confs:
            line(c, c["so"], c["id"])
    if "asan" in needs:
        confs = build.host_configs()
        build.build_hosts(confs, "asan", log)
        for c in confs:
            line(c, c["so"], c["id"] + "+asan")
    if "cov" in needs:
        confs = [c for c in build.host_configs() if "x4" not in needs or c["lanes"] == 4]
        build.build_hosts(confs, "cov", log)
        for c in confs:
            line(c, c["so"], c["id"] + "+cov")
            lines[-1] += " traced=1"
    if "vg" in needs:
        confs = build.host_configs()
        build.build_hosts(confs, "vg", log)
        for c in confs:
            line(c, c["so"], c["id"])
        build.build_ctdriver()
    if "m4" in needs:
        for c in build.build_m4s(build.m4_configs(), log):
            lines.append("kind=m4 id=%s family=%s path=%s L=%d comp=%d" % (c["id"], c["family"], c["elf"], c["L"], c["comp"]))
    if "m0" in needs and build.re.search(build.CONFS, "M0"):
        elf, sz = build.build_m0(log)
        if prop in UNITS:
            u = build.build_m0_units(log)
            if u:
                lines.append("kind=m4 id=M0-units family=m0u path=%s L=3 v6m=1 bare=1" % u)
        lines.append("kind=m0 id=M0/Saber path=%s pk=%d sk=%d ct=%d ss=%d" % (elf, *sz))
    if "m0bench" in needs:
        _, sz = build.build_m0(log)
        for kind, elf in build.build_m0_bench(log):
            lines.append("kind=%s id=M0/%s path=%s pk=%d sk=%d ct=%d ss=%d" % (kind, kind[2:], elf, *sz))
    if "gen" in needs:
        rows, script = build.build_gen(log)
        for name, elf, why in rows:
            if why:
                with open("%s/gen/%s.txt" % (BUILD, name), "w") as f:
                    f.write(why)
                lines.append("kind=m4 id=%s family=gen path=- broken=%s/gen/%s.txt L=3 bare=1" % (name, BUILD, name))
            else:
                lines.append("kind=m4 id=%s family=gen path=%s L=3 bare=1" % (name, elf))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def engine_args(prop, tier, seed, targets):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    return ["--prop", prop, "--seed", str(seed), "--tier", tier, "--targets", targets,
            "--replays", VERIF + "/replays", "--evidence", "%s/evidence/%s.json" % (VERIF, prop),
            "--wall", os.environ.get("VERIF_WALL", str(WALL[tier]))]


def engine_env(prop):
    env = dict(os.environ)
    if "asan" in NEEDS[prop]:
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        env["LD_PRELOAD"] = os.path.realpath(lib)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:verify_asan_link_order=0:handle_segv=0:handle_sigbus=0:"
                               "detect_stack_use_after_return=0:allocator_may_return_null=1")
    if "gen" in NEEDS[prop]:
        env["VF_WIDENER"] = build.BUILD + "/gen/committed/src/fix-alignment.py"
        env["VF_LINK"] = build.VERIF + "/glue/m4/link.ld"
        env["VF_SCRATCH"] = build.BUILD + "/gen/scratch"
    if "vg" in NEEDS[prop]:
        env["VF_CTDRIVER"] = build.BUILD + "/ctdriver"
    return env


def prepare(prop, needs=None):
    with build.Lock():
        targets = "%s/targets-%s.txt" % (BUILD, prop)
        write_targets(prop, targets, (needs or NEEDS[prop]).split())
        exe = build.engine_build(log)
    return exe, targets


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    what = sys.argv[1]
    if what == "selftest":
        with build.Lock():
            exe = build.engine_build(log)
        return subprocess.call([exe, "selftest", build.REPO + "/KAT"])
    if what == "--replay":
        if sys.argv[2].endswith(".json"):
            {"C21": c21.use, "C24": c24.use, "C26": c26.use}.get(json.load(open(sys.argv[2]))["property"], lambda: None)()
            return c19.replay(build.REPO, sys.argv[2])
        prop = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("property ")][0]
        exe, targets = prepare(prop)
        return subprocess.call([exe, "replay", sys.argv[2], "--prop", prop, "--targets", targets],
                               env=engine_env(prop))
    prop = what
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop in ("C19", "C21", "C24", "C26"):
        {"C21": c21.use, "C24": c24.use, "C26": c26.use}.get(prop, lambda: None)()
        return c19.run(build.REPO, VERIF, tier, seed, int(os.environ.get("VERIF_WALL", str(WALL[tier]))))
    exe, targets = prepare(prop)
    return subprocess.call([exe, "run"] + engine_args(prop, tier, seed, targets) + sys.argv[3:],
                           env=engine_env(prop))


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("cannot build: %s" % e)
        rc = 2
    sys.exit(rc)
