#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TOOL = ("Seeded sampling, not proof: each case is one exactly repeatable execution of the real binaries built from the tree under a simulated kernel (xsim, ptrace syscall emulation); "
        "trusts the kernel model, the host C compiler and libc for the host-built tools.")
LIBC = ("Seeded sampling, not proof: operation scripts run by a program compiled by the tree's own compiler and linked with its C library, on a simulated kernel or WASI host, against a small reference model; "
        "trusts the model of the kernel/host and the script interpreter.")
BUILT = {}
for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C20", "C22", "C23"):
    BUILT[i] = ("deterministic simulation of the process tree on a simulated kernel, seeded schedules and fault injection", TOOL)
for i in ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C19"):
    BUILT[i] = ("deterministic simulation of library programs on a simulated kernel / WASI host, seeded fault injection, reference model", LIBC)
NA = {
    "N01": "A pure function of the source text: no schedule, clock, fault or I/O is involved in what a compiled program means, so simulation has nothing to decide. (C21 covers the one asynchronous aspect, C08/C20 the environment dependence.)",
    "N02": "A pure function of the source text; only its behaviour under failing I/O is nondeterministic, and that is C01-C03.",
    "N03": "A pure function of the input text and objects; only torn or failing I/O is nondeterministic, and that is C02 and C09.",
    "N04": "Pure functions of their arguments; the parts that allocate, read, write or call the system are C10-C18.",
}
from importlib import import_module
import sys
sys.path.insert(0, V)
from sim import props as P
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    try:
        P.get(i)
    except SystemExit:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, n = BUILT[i]
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": t, "level": "exploration", "level_note": n, "evidence_file": "evidence/%s.json" % i})
m = {"version": 1, "setup_cmd": "python3 sim/build.py xsim native wcc gen2 ccwasm", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the system-call interface (natively) and the WASI interface (wasm). 'fix:' commits in /repo repair genuine defects, listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
