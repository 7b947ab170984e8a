#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: generated randomness, round-trip oracle, all builds",
    "C02": "property-based testing: generated randomness against an independent specification model",
    "C03": "property-based testing: generated honest and adversarial public keys against an independent specification model",
    "C04": "property-based testing: generated and exhaustively bit-flipped ciphertexts, arbitrary secret keys, against an independent specification model",
    "C05": "property-based testing: differential testing between all implementations of a parameter set",
    "C06": "property-based testing: generated operands against schoolbook multiplication",
    "C07": "property-based testing: generated coefficients and byte strings against bit-by-bit packing, round-trip",
    "C08": "property-based testing: generated seeds and sampler streams against an independent model",
    "C09": "property-based testing: swept and generated lengths against OpenSSL, lane-independence and in-place relations",
    "C10": "stateful property-based testing: generated request histories against SP 800-90A and AES-CTR models",
    "C11": "property-based testing with injected memory faults: guard pages, write-protected inputs, swept alignments, AddressSanitizer, emulator memory checks",
    "C12": "stateful property-based testing: generated call histories, each step against the same call in a fresh process",
    "C13": "stateful property-based testing of schedules: thread stress and generated suspension points, results against running alone",
    "C14": "property-based testing: generated secrets, secret-taint monitoring (valgrind, emulator) and execution-trace equality (emulator)",
    "C15": "property-based testing: generated and swept inputs against the exact specification",
    "C16": "property-based testing: generated lanes against the model, lane permutation and replacement relations",
    "C17": "property-based testing on an instruction-set emulator against an independent specification model",
    "C18": "property-based testing on a board emulator: generated hardware randomness and requests against model and memory-map invariants",
    "C19": "property-based testing: generated distributions against exact rational arithmetic",
    "C20": "property-based testing: regenerated assembly on an instruction-set emulator against schoolbook multiplication and the committed assembly",
    "C23": "stateful property-based testing: generated histories of state operations against plain Keccak states (permutation validated against OpenSSL)",
    "C22": "property-based testing: the generated component cases of C06-C10 and C15 on AddressSanitizer and bound-checked builds, arguments surrounded by poisoned memory",
    "C24": "property-based testing: generated sizes, random sources, reduction outcomes and worker orders on a stand-in for Sage, against exact arithmetic",
    "C25": "property-based testing on a board emulator: generated RAM contents, hardware randomness and timer behaviour against observed stack use, model and clock",
    "C26": "property-based testing: generated reports, serial contents and interruptions on a stand-in for the board, against the numbers sent",
    "C21": "property-based testing: generated laws, moduli, thresholds and security tables against a reference search",
}
NOTE = {}
CLAIMED = open(V + "/tools/claimed.txt").read().split()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                       "thorough_cmd": "python3 run.py %s thorough" % i, "technique": TECH[i],
                       "level": "exploration",
                       "level_note": NOTE.get(i, "generated-input search against an explicit oracle; see DESIGN.md")})
    else:
        na.append({"property": i, "reason": "check still under construction"})
m = {"version": 1, "setup_cmd": "python3 run.py selftest", "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
