#!/usr/bin/env python3
"""check.py <property>: decides one property from the source of /repo (see DESIGN.md)."""
import fcntl
import hashlib
import importlib
import json
import os
import resource
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    repo = os.environ.get("REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    facts = os.path.join(HERE, ".build", "facts." + pid)
    if "--facts" in sys.argv:
        facts = sys.argv[sys.argv.index("--facts") + 1]
    else:
        r = subprocess.run(["bash", os.path.join(HERE, "tools", "facts.sh"), facts], stdout=sys.stderr)
        if r.returncode != 0:
            print("ERROR: the workspace does not type-check under the driver; no verdict", file=sys.stderr)
            return 2
    t1 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, ((8 if tier == "quick" else 24) << 30,) * 2)
    from ar.prog import Prog
    from ar.report import Reporter

    P = Prog(facts, os.path.join(HERE, ".build", "mfacts"))
    P.repo = repo
    R = Reporter(pid, tier)
    mod = importlib.import_module("rules." + pid.lower())
    mod.run(P, R)
    if "--facts" not in sys.argv:
        shutil.rmtree(facts, ignore_errors=True)
    known = R.load_known(os.path.join(HERE, "known_findings.txt"))
    viol, kn = [], []
    for key, v in sorted(R.viol.items()):
        (kn if key in known else viol).append((key, v))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": R.coverage(P, getattr(mod, "RULE", "")),
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    ev["coverage"]["facts_s"] = round(t1 - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, v in kn:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], key))
    for i, (key, v) in enumerate(viol):
        rp = os.path.join(HERE, "evidence", "%s.violation.%d.txt" % (pid, i))
        with open(rp, "w") as f:
            f.write("property %s\nconstruct %s\nwhere %s\n%s\n" % (pid, key, v.get("where"), v["msg"]))
            for x in v.get("path") or []:
                f.write("  %s\n" % x)
        print("%s: %s [%s]" % (v.get("where"), v["msg"], key))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if viol:
        return 1
    if R.incomplete:
        print("ERROR: the analysis did not finish (%s); no verdict" % R.incomplete, file=sys.stderr)
        return 2
    print("OK property=%s obligations=%d %.1fs" % (pid, sum(R.obl.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
