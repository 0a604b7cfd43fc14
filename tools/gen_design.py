#!/usr/bin/env python3
"""Writes DESIGN.md (see tools/design_head.md)."""
import glob
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
sys.dont_write_bytecode = True
from props import NA, PROPS  # noqa

head = open(os.path.join(V, "tools", "design_head.md")).read()
fixes = []
for ln in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", ln)
    if m:
        fixes.append("| %s | %s | %s |" % m.groups())
muts = [ln[3:].strip().split(" : ") for ln in open(os.path.join(V, "tools", "mutants.txt")) if ln.startswith("== ")]
bugs = [(i, e.split()) for i, e in muts if not e.startswith("QUIET")]
by = {}
for i, e in bugs:
    for p in e:
        by.setdefault(p, []).append(i)
seeds = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(f))
    seeds.append((os.path.basename(os.path.dirname(f)), j["property"], j["needs"], j["what_it_breaks"]))
ps = []
seen = {}
for p in PROPS:
    m = importlib.import_module("rules." + p["id"].lower())
    ps.append("### %s %s\n\n%s\n\n*Quantified over:* %s. *Tests cannot settle it because:* %s\n\n*Decided by:* %s\n\n*Assumed:* %s.%s\n" % (
        p["id"], p["title"], p["statement"], p["q"], p["why"], m.RULE, "; ".join(m.ASSUME).rstrip("."), "\n\n*Note:* " + p["note"] if p.get("note") else ""))
out = head
for k, v in {
    "FIXES": "\n".join(fixes), "NA": "\n".join("* **%s %s**: %s" % (p["id"], p["title"], p["reason"]) for p in NA), "PROPS": "\n".join(ps),
    "NMUT": str(len(muts)), "NBUG": str(len(bugs)), "NQUIET": str(len(muts) - len(bugs)), "SEEDS": "%d of them" % len(seeds),
    "MATRIX": "\n".join("| %s | %s |" % (p["id"], ", ".join(sorted(by.get(p["id"], []))) or "-") for p in PROPS),
    "SEEDTAB": "\n".join("| %s | %s | %s: %s | %s |" % (i, p, n, w, p) for i, p, n, w in seeds),
}.items():
    assert "@%s@" % k in out, k
    out = out.replace("@%s@" % k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(out)
