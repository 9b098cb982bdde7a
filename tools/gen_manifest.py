#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
NOTE = ("Generated-input search against an explicit oracle (%s). No violation within the explored cases; not a proof. "
        "Trusts the Go toolchain, the rapid library and the reference model in /verif/harness; floating-point results are "
        "compared with a relative tolerance of 1e-9 unless stated.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./run.py %s" % i,
                       "technique": c.get("technique", "property-based testing with rapid: generated cases against a reference model"),
                       "level": "exploration", "level_note": NOTE % c["rule"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the checks import the public packages, and run the real command line programs (the interactive one against copies of its terminal libraries whose screen is replaced by an in-memory one)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
