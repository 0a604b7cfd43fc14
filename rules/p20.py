"""P20: what it means for a condition to match."""
from ar import q
from ar import natives as N
from ar.vals import *
from . import wf

RULE = ("Condition::is_match is interpreted path-sensitively over its MIR (typestate dataflow to a fixpoint) for an arbitrary condition and payload; one arbitrary pattern, branch, path and event "
        "name are followed through the (nested) loops. Each path that answers `true` must have established a match in every configured group of the payload's event, each path that answers `false` "
        "must have established why: another event, no entry for it, a group in which the followed pair does not match or which is empty, or an invalid pattern.")
ASSUME = ["glob::Pattern::matches decides whether a glob matches", "an invalid pattern may make its group fail"]

EVENTS = (("push", "PushCondition"), ("pull_request", "PullRequestCondition"))


class Rule(wf.AutoRule):
    coarse = False
    fields = ("hit", "broken", "tested", "among")
    init = ((), (), (), None)

    def __init__(self, P):
        super().__init__({"P20"})
        self.P = P
        A = lambda n: q.adt(P, n, "astro_run")
        self.A = {n: A(n) for n in ("Condition", "ConditionConfig", "ConditionPayload", "PushCondition", "PullRequestCondition")}
        self.cond, self.pay = mk("arg", "condition"), mk("arg", "payload")
        vs = [v["name"] for v in self.A["Condition"]["variants"]]
        self.vev, self.vcf = vs.index("Event"), vs.index("Config")
        f = lambda a, l, n: wf.field_of(P, self.A[a], l, n)
        self.events = fld(self.cond, 0, "Event.0")
        cfg = fld(self.cond, 0, "Config.0")
        self.event = f("ConditionPayload", self.pay, "event")
        self.branch = f("ConditionPayload", self.pay, "branch")
        self.paths = f("ConditionPayload", self.pay, "paths")
        self.entry, self.pats = {}, {}
        for n, a in EVENTS:
            e = f("ConditionConfig", cfg, n)
            self.entry[n] = e
            for g in ("branches", "paths"):
                self.pats[n, g] = f(a, fld(e, 0, "Some.0"), g)

    def start(self):
        return tuple(self.init)

    def group(self, p):
        """the pattern group an element belongs to"""
        if p.k != "y":
            return None
        l = self.item(p.a[0])
        for k, x in self.pats.items():
            if l is not None and l is fld(x, 0, "Some.0"):
                return k
        return None

    def item(self, l):
        """the list a label stands for an element of"""
        while l.k == "old":
            l = l.a[0]
        return l.a[0] if l.k in ("el", "wit", "idx") else None

    def strof(self, v):
        while v.k == "y" and v.a[0].k == "pure" and len(v.a[0].a[1]) == 1 and v.a[0].a[0].startswith(("into:", "display", "to_string")):
            v = v.a[0].a[1][0]
        return v

    def on_call(self, E, st, c):
        n = c.name or ""
        if n == "glob::Pattern::new":
            p = self.strof(E.deep(st, c.args[0]))
            g = self.group(p)
            self.did("P20", "pattern")
            if g is None:
                self.bad(st, "P20", "pattern:other", "%s is used as a pattern" % show(p), c)
            s2 = st.copy()
            self.s(s2, broken=tuple(sorted(set(self.g(st, "broken")) | {g}, key=str)))
            return N.out(E, c, [(st, ok(Y(mk("pure", "pattern", (p,))))), (s2, err(Y(mk("const", "pattern error"))))])
        if n == "glob::Pattern::matches":
            p, v = E.deep(st, c.args[0]), self.strof(E.deep(st, c.args[1]))
            g = self.group(p.a[0].a[1][0]) if p.k == "y" and p.a[0].k == "pure" and p.a[0].a[0] == "pattern" else None
            good = g is not None and (v is Y(self.branch) if g[1] == "branches" else v.k == "y" and self.item(v.a[0]) is self.paths)
            self.did("P20", "tested")
            if not good:
                self.bad(st, "P20", "match:other", "%s is matched against %s" % (show(v), show(p)), c)
                return None
            w = (p.a[0].a[1][0].a[0].k, v.a[0].k if g[1] == "paths" else "wit")
            s2 = st.copy()
            self.s(s2, hit=tuple(sorted(set(self.g(st, "hit")) | {g})))
            if w == ("wit", "wit"):
                self.s(st, tested=tuple(sorted(set(self.g(st, "tested")) | {g})))
            return N.out(E, c, [(s2, TRUE), (st, FALSE)])
        return None

    def on_fact(self, E, st, l, n):
        if l.k == "pure" and l.a[0] == "eq" and Y(self.event) in l.a[1]:
            o = [y for y in l.a[1] if y is not Y(self.event)]
            if o and o[0].k == "y" and o[0].a[0].k in ("el", "wit", "idx") and o[0].a[0].a[0] is self.events:
                if n == 1:
                    self.s(st, among=True)
                elif o[0].a[0].k == "wit" and self.g(st, "among") is None:
                    self.s(st, among=False)
        return True

    def witness(self, E, st, L):
        return L in (self.paths, self.events) or any(L is fld(l, 0, "Some.0") for l in self.pats.values())

    def empty(self, E, st, l):
        n = mk("pure", "len", (Y(l),))
        return E.fact(st, mk("pure", "empty", (Y(l),))) == 1 or E.fact(st, n) == 0

    def occurs(self, E, st):
        """is the payload's event one of the listed ones? True / False / None"""
        if self.g(st, "among"):
            return True
        f = E.fact(st, mk("pure", "contains", (Y(self.events), Y(self.event))))
        if f is not None:
            return bool(f)
        w = self.g(st, "among")
        return False if self.empty(E, st, self.events) else w

    def on_exit(self, E, st, v):
        v = E.simp(st, E.deep(st, v))
        opts = [(s, K(int(b))) for s, b in E.fork_bool(st, v)] if v.k == "y" else [(st, v)]
        for s, x in opts:
            if x.k != "k":
                self.bad(s, "P20", "answer:unknown", "the answer is %s" % show(x))
            else:
                self.answer(E, s, bool(x.a[0]))

    def answer(self, E, st, yes):
        self.did("P20", "matched" if yes else "not-matched")
        d = E.fact(st, mk("discr", self.cond))
        if d == self.vev:
            o = self.occurs(E, st)
            self.did("P20", "event-list")
            if o is not yes:
                self.bad(st, "P20", "events:%s" % yes, "a list of events %s although the payload's event %s" % (
                    "matches" if yes else "does not match", {None: "was not compared with all of them", True: "is one of them", False: "is none of them"}[o]))
            return
        if d != self.vcf:
            self.bad(st, "P20", "answer:early", "the answer does not depend on the condition")
            return
        ev = E.fact(st, self.event)
        which = [n for n, _ in EVENTS if ev is S(n)]
        if not which:
            if ev is None and not all(E.excluded(st, self.event, S(n)) for n, _ in EVENTS):
                self.bad(st, "P20", "config:event", "the answer does not depend on the payload's event")
            elif yes:
                self.bad(st, "P20", "config:unknown-event", "a condition for push and pull_request matches another event")
            return
        n = which[0]
        e = E.fact(st, mk("discr", self.entry[n]))
        if e != 1:
            if e is None:
                self.bad(st, "P20", "config:unread:" + n, "the answer for a %s event does not depend on the %s entry" % (n, n))
            elif yes:
                self.bad(st, "P20", "config:absent:" + n, "a condition without %s entry matches a %s event" % (n, n))
            return
        why = False
        for g in ("branches", "paths"):
            l = self.pats[n, g]
            d = E.fact(st, mk("discr", l))
            L = fld(l, 0, "Some.0")
            if yes and d != 0 and (n, g) not in self.g(st, "hit"):
                self.bad(st, "P20", "config:%s:%s:true" % (n, g), "a %s event matches although no configured pattern of `%s` was found to match" % (n, g))
            if d == 1 and (n, g) not in self.g(st, "hit") and (
                    (n, g) in self.g(st, "tested") or (n, g) in self.g(st, "broken") or self.empty(E, st, L) or g == "paths" and self.empty(E, st, self.paths)):
                why = True
        self.did("P20", "config:%s:%s" % (n, yes))
        if not yes and not why:
            self.bad(st, "P20", "config:%s:false" % n, "a %s event does not match although no configured group was found not to match" % n)

    def on_panic(self, E, st, what, line):
        self.bad(st, "P20", "panic", "evaluating a condition can panic: %s" % what)


def run(P, R):
    bs = q.method(P, "astro_run", "Condition", "is_match")
    if not R.need(bs, "Condition::is_match"):
        return
    r = Rule(P)
    R.run(P, r, bs[0], args=[Y(r.cond), Y(r.pay)], auto=r.start())
    for n, k in {"matched": 4, "not-matched": 6, "event-list": 2, "pattern": 4, "tested": 4, "config:push:True": 1, "config:pull_request:True": 1}.items():
        R.floor(r, n, k)
