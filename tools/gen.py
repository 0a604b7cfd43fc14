#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source for both)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import NA, PROPS  # noqa

LEVEL = ("Static: decided from the MIR of the current tree on every run; sound for the rule stated in DESIGN.md up to the engine's "
         "stated assumptions (reference models of std/tokio combinators, lock exclusion); an unmodelled construct or a spent budget "
         "is reported as a violation, never passed over.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        j = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("observe"):
            j["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(j) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/build.sh && bash tools/facts.sh .build/warm", "checks": [
    {"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "other", "level_note": p.get("note", LEVEL)}
    for p in PROPS], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "No hooks: the analyser reads the unmodified crates through rustc_private (nightly)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
ids = [p["id"] for p in PROPS + NA]
assert len(set(ids)) == len(ids)
print(len(PROPS), "claimed,", len(NA), "not applicable")
