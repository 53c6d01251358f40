#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + "/lib"); import specs
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
TECH = "symbolic execution of the library's LLVM IR with z3 deciding every branch and assertion (bounded), counterexamples replayed natively"
NA = dict(specs.NOT_APPLICABLE)
checks = []; na = []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s" % i, thorough_cmd="python3 lib/check.py %s --thorough" % i, evidence_file="evidence/%s.json" % i, technique=s.get("technique", TECH), level="model_checking", level_note=s.get("note", "Every input and history within the stated bounds is decided by the solver over the code's IR; trusts the executor, z3 and the modelled runtime functions.") + " Outside: " + s.get("outside", "")))
    else: na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na, notes="Engine in engine/, harnesses in harness/, bounds in lib/specs.py; the encoding is regenerated from /repo's headers on every run.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); print(len(checks), "claimed,", len(na), "not claimed")
