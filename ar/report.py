"""Collects violations, obligations and coverage of one check run."""
import os

from .engine import Budget, Engine
from .vals import *


class Reporter:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = {}
        self.obl = {}
        self.engines = []
        self.entries = []
        self.facts = {}
        self.samples = []
        self.last = None
        self.incomplete = None

    def load_known(self, path):
        r = {}
        if os.path.exists(path):
            for ln in open(path):
                ln = ln.strip()
                if ln.startswith("known: property=%s key=" % self.pid):
                    rest = ln.split("key=", 1)[1]
                    key, _, what = rest.partition(" :: ")
                    r[key.strip()] = what.strip()
        return r

    def violation(self, key, msg, where=None, path=None):
        if where is None and self.last is not None:
            where = "%s:%s" % (self.last.file, self.last.line)
        self.viol.setdefault(key, {"msg": msg, "where": where, "path": path or []})

    def ob(self, name, n=1):
        self.obl[name] = self.obl.get(name, 0) + n

    def note(self, k, v):
        self.facts[k] = v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, bodies, what):
        """an anchor of the property must exist"""
        if not bodies:
            self.violation("anchor:" + what, "nothing in the workspace provides `%s`, so the property has no implementation to hold" % what)
            return False
        return True

    def floor(self, rule, name, n, what=None):
        """an obligation must have been met at least n times"""
        got = rule.obl.get(name, 0) if rule is not None else self.obl.get(name, 0)
        if got < n:
            self.violation("floor:" + name, what or ("obligation `%s` was reached %d times, expected at least %d" % (name, got, n)))

    def run(self, P, rule, entry, args=None, is_async=None, budget=3000000, auto=None, label=None, facts=None):
        E = Engine(P, rule, budget)
        b = self.last = entry
        if args is None:
            args = [Y(mk("arg", argname(b, i))) for i in range(b.argc)]
        if is_async is None:
            is_async = (b.id + "::{closure#0}") in P.bodies and P.bodies[b.id + "::{closure#0}"].coroutine
        if is_async:
            E.start_async(b, args, auto, facts)
        else:
            E.start(b, args, auto, facts)
        try:
            E.run()
        except (Budget, MemoryError) as e:
            E.work = []
            E.seen = set(["..."])
            self.incomplete = str(e) or "out of memory"
        self.engines.append(E)
        self.entries.append({"function": b.n, "file": b.file, "states": len(E.seen), "steps": E.steps, "paths": E.paths,
                             "call_sites": E.calls, "functions": len(E.funcs)})
        self.merge(rule)
        return E

    def merge(self, rule):
        for k, v in rule.viol.items():
            self.viol.setdefault(k, v)
        for k, n in rule.obl.items():
            self.obl[k] = self.obl.get(k, 0) + n
        rule.merged = True

    def coverage(self, P, rule):
        fns = set()
        for e in self.engines:
            fns |= {f for f in e.funcs if not f.startswith("arfx_models")}
        opaque = {}
        for e in self.engines:
            for k, n in e.unmod.items():
                opaque[str(k)] = opaque.get(str(k), 0) + n
        c = {
            "explanation": rule,
            "entries": self.entries,
            "functions_analysed": len(fns),
            "functions": sorted(fns)[:60],
            "obligations_discharged": self.obl,
            "opaque_calls": opaque,
            "bodies_in_program": len(P.bodies),
        }
        if self.samples:
            c["samples"] = self.samples
        c.update(self.facts)
        return c


def argname(b, i):
    l = b.locals[i + 1]
    if len(l) > 1 and l[1]:
        return l[1]
    return "a%d" % i
