#!/usr/bin/env python3
"""Development aid: apply textual mutants (tools/mutants.txt) to a scratch copy of /repo and run checks on it.

usage: mut.py [-a | -p P09,P10] [id-substring ...]     (REPO copies live in /tmp/arfx_mut, removed at the end)
mutants.txt blocks:
  == id : expected properties (or QUIET)
  file
  <<<<
  old text
  ====
  new text
  >>>>
"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_W", "/tmp/arfx_mut")


def load():
    out = []
    cur = None
    mode = None
    for ln in open(os.path.join(V, "tools", "mutants.txt")):
        if mode is None and ln.startswith("== "):
            i, _, e = ln[3:].strip().partition(" : ")
            cur = {"id": i, "exp": e.split(), "ed": []}
            out.append(cur)
        elif mode is None and ln.startswith("<<<<"):
            cur["ed"].append([f, "", ""])
            mode = 1
        elif mode == 1 and ln.startswith("===="):
            mode = 2
        elif mode == 2 and ln.startswith(">>>>"):
            mode = None
        elif mode:
            cur["ed"][-1][mode] += ln
        elif ln.strip() and not ln.startswith("#"):
            f = ln.strip()
    return out


def main():
    a = sys.argv[1:]
    props = None
    if a and a[0] == "-p":
        props = a[1].split(",")
        a = a[2:]
    every = None
    if a and a[0] == "-a":  # quiet mutants against every check
        every = sorted(x[:-3].upper() for x in os.listdir(os.path.join(V, "rules")) if re.match(r"p\d\d\.py$", x))
        a = a[1:]
    env = dict(os.environ, REPO=W + "/repo", VERIF_TIER="quick")
    os.makedirs(W, exist_ok=True)
    bad = 0
    for m in load():
        if a and not any(x in m["id"] for x in a):
            continue
        run = props or [p for p in m["exp"] if p.startswith("P")]
        if m["exp"] and m["exp"][0] == "QUIET" and not props:
            run = m["exp"][1:]
        if every:
            if m["exp"][0] != "QUIET":
                continue
            run = every
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", W + "/repo/"], check=True)
        okk = True
        for f, o, n in m["ed"]:
            p = os.path.join(W, "repo", f)
            s = open(p).read()
            if s.count(o) < 1:
                print("!!", m["id"], "text not found in", f)
                okk = False
                break
            open(p, "w").write(s.replace(o, n, 1))
        if not okk:
            bad += 1
            continue
        facts = os.path.join(V, ".build", "facts.mut" + W.replace("/", "_"))
        r = subprocess.run(["bash", V + "/tools/facts.sh", facts], env=env, capture_output=True, text=True)
        if r.returncode:
            print("!!", m["id"], "does not compile\n", r.stderr[-1500:])
            bad += 1
            continue
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda p: subprocess.run([sys.executable, V + "/check.py", p, "--facts", facts], env=env, capture_output=True, text=True), run))
        for p, r in zip(run, rs):
            want = 0 if m["exp"] and m["exp"][0] == "QUIET" else 1
            if p not in m["exp"] and not every:
                want = None
            tag = "ok " if want is None or r.returncode == want else "BAD"
            if tag == "BAD":
                bad += 1
            lines = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")]
            print(tag, m["id"], p, "rc=%d" % r.returncode, "|", " ;; ".join(lines)[:260] if r.returncode != 2 else r.stderr[-400:], flush=True)
    shutil.rmtree(W, ignore_errors=True)
    print("bad:", bad)


main()
