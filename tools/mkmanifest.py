#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import CHECKS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
for p in props:
    if p not in CHECKS and p not in na:
        na[p] = "not claimed: no check registered yet"
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())],
    "notes": "Checks are self-contained: each builds the library from /repo's "
             "working tree in a scratch directory, runs TLC on the TLA+ modules "
             "in spec/ and validates executions recorded by the programs in "
             "harness/. No hooks in /repo are used.",
}
for p in props:
    if p not in CHECKS:
        continue
    spec = CHECKS[p][1]
    m["checks"].append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": spec["technique"],
        "level": "model_checking",
        "level_note": spec["note"],
    })
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
