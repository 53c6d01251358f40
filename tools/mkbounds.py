#!/usr/bin/env python3
"""BOUNDS.md from lib/specs.py"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib"); import specs
out = ["# Bounds of every entry (generated by tools/mkbounds.py from lib/specs.py)", "", "Parameters are read by the entry in `harness/`; `preempt` is the number of preemptions, `mm` marks entries decided over the C++ memory model. Population and length parameters are upper bounds: every smaller value is explored too where the entry makes it a choice.", ""]
def fmt(t, e):
    if not t: return "—"
    s = ", ".join("%s=%s" % kv for kv in t.get("params", {}).items()) or "(defaults)"
    if "preempt" in t: s += ", preempt=%d" % t["preempt"]
    return s + (", mm" if e.get("threads") else "")
for p in sorted(specs.SPECS):
    s = specs.SPECS[p]; out += ["## " + p, "", "| entry | source | quick | thorough |", "|---|---|---|---|"]
    for e in s["entries"]: out.append("| %s%s | %s | %s | %s |" % (e["entry"], "".join(" [%s]" % c for c in e.get("configs", []) if c != "std"), e["src"], "—" if e.get("thorough_only") else fmt(e.get("quick"), e), fmt(e.get("thorough"), e)))
    out += ["", "Outside: " + s["outside"] + ".", ""]
    for a in s.get("assumptions", []): out += ["Assumes: " + a + ".", ""]
open(V + "/BOUNDS.md", "w").write("\n".join(out))
