#!/usr/bin/env python3
"""Development aid: (re)generates seeded/<id>/ from tools/seed/<id>.txt and, with --test, confirms it in a scratch copy.

<id>.txt:  property / needs / breaks / deps header lines, then edits as in mutants.txt, then a line `---- demo` and the demo.rs text
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/arfx_seed"


def parse(fn):
    h, ed, mode, f, demo = {}, [], None, None, []
    for ln in open(fn):
        if mode == "demo":
            demo.append(ln)
        elif mode is None and ln.startswith("---- demo"):
            mode = "demo"
        elif mode is None and ln.startswith("<<<<"):
            ed.append([f, "", ""]); mode = 1
        elif mode == 1 and ln.startswith("===="):
            mode = 2
        elif mode == 2 and ln.startswith(">>>>"):
            mode = None
        elif mode in (1, 2):
            ed[-1][mode] += ln
        elif re.match(r"(property|needs|breaks|deps): ", ln):
            k, _, v = ln.partition(": "); h[k] = v.strip()
        elif ln.strip():
            f = ln.strip()
    return h, ed, "".join(demo)


def main():
    test = "--test" in sys.argv
    want = [a for a in sys.argv[1:] if not a.startswith("--")]
    pre = open(os.path.join(V, "tools/seed/prelude.rs")).read()
    for fn in sorted(os.listdir(os.path.join(V, "tools/seed"))):
        if not fn.endswith(".txt"):
            continue
        i = fn[:-4]
        if want and not any(w in i for w in want):
            continue
        h, ed, demo = parse(os.path.join(V, "tools/seed", fn))
        os.makedirs(W, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", W + "/repo/"], check=True)
        ok = True
        for f, o, n in ed:
            p = os.path.join(W, "repo", f)
            s = open(p).read()
            if s.count(o) != 1:
                print("!!", i, "text found %d times in %s" % (s.count(o), f)); ok = False; break
            open(p, "w").write(s.replace(o, n, 1))
        if not ok:
            continue
        diff = subprocess.run(["git", "-C", W + "/repo", "diff"], capture_output=True, text=True, check=True).stdout
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        sh = open(os.path.join(V, "tools/seed/demo.sh")).read()
        deps = {"scheduler": 'astro-run-scheduler = { path = "$R/crates/scheduler" }', "remote": 'astro-run-remote-runner = { path = "$R/crates/remote-runner" }\nastro-run-protocol = { path = "$R/crates/protocol" }\ntonic = "0.9"\nprost = "0.11"\ntokio-stream = "0.1"',
                "runner": 'astro-runner = { path = "$R/crates/runner" }'}
        sh = sh.replace("DEPS\n", "".join(deps[x] + "\n" for x in h.get("deps", "").split()))
        open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(pre + demo)
        json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if test:
            a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
            b = subprocess.run(["bash", d + "/demo.sh"], cwd=W + "/repo", capture_output=True, text=True)
            print(("ok " if a.returncode == 0 and b.returncode not in (0, 3) else "BAD"), i, "unchanged rc=%d, patched rc=%d" % (a.returncode, b.returncode), (b.stdout + b.stderr)[-200:].replace("\n", " | "))
            if a.returncode:
                print((a.stdout + a.stderr)[-1500:])
            env = dict(os.environ, REPO=W + "/repo", VERIF_TIER="quick")
            facts = os.path.join(V, ".build", "facts.seed")
            r = subprocess.run(["bash", V + "/tools/facts.sh", facts], env=env, capture_output=True, text=True)
            r = subprocess.run([sys.executable, V + "/check.py", h["property"], "--facts", facts], env=env, capture_output=True, text=True)
            print("    check %s rc=%d %s" % (h["property"], r.returncode, r.stdout.split("\n")[0][:200]))
            if "--suite" in sys.argv:
                t = subprocess.run(["bash", "/tmp/tst.sh", W + "/repo"], capture_output=True, text=True)
                print("    suite", t.stdout.strip()[-300:])
    shutil.rmtree(W, ignore_errors=True)


main()
