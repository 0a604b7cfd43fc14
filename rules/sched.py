"""What the default scheduler picks and how it keeps its books (P22, P23)."""
from ar import q
from ar.summ import MapSummary
from ar.natives import TOMB
from ar.vals import *
from . import wf
from .common import calls_one

RULE = ("DefaultScheduler::schedule is interpreted path-sensitively over its MIR (typestate dataflow to a fixpoint) for an arbitrary list of runners, step and bookkeeping state, with one arbitrary "
        "runner of the list followed through all loops; what is known of a runner (capabilities, comparison of its load, last used by the job) is kept when the loop goes on to other runners. "
        "The answer and every change of the bookkeeping are compared with the rule; completion hooks are compared by exact map-effect summaries. "
        "Loads that are changed must not depend on what was looked up of them under an earlier lock.")
ASSUME = ["a job's steps are scheduled and completed one after the other", "runner ids in the list are distinct",
          "HashMap/iterator combinators behave as the reference models in models/"]


class Sched(wf.AutoRule):
    coarse = False
    fields = ("zero", "low", "eff", "locks", "stale", "lost")
    init = (False, (), (), (), False, False)

    def __init__(self, P, props):
        super().__init__(props)
        self.P = P
        self.me, self.runners, self.ctx = mk("arg", "self"), mk("arg", "runners"), mk("arg", "ctx")
        self.wit = mk("wit", self.runners)
        cx, cm, co = (q.adt(P, n, "astro_run") for n in ("types::context::Context", "Command", "ContainerOptions"))
        self.meta = q.adt(P, "RunnerMetadata", "astro_run_scheduler")
        cmd = wf.field_of(P, cx, self.ctx, "command")
        self.step = wf.field_of(P, cm, cmd, "id")
        self.con = wf.field_of(P, cm, cmd, "container")
        self.name = wf.field_of(P, co, fld(self.con, 0, "Some.0"), "name")
        self.maps = {}
        for n, a in P.adts.items():
            if n.startswith("astro_run_scheduler::") and a["kind"] == "struct":
                for f in a["variants"][0]["fields"]:
                    for k, frag in (("count", "HashMap<alloc::string::String, i32"), ("step", "StepId, "), ("job", "JobId, ")):
                        if "HashMap<" in f[1] and frag in f[1]:
                            self.maps[f[0]] = k
        self.job = None

    def start(self):
        return tuple(self.init)

    def rf(self, x, n):
        return wf.field_of(self.P, self.meta, x, n)

    # --- loads
    def count_of(self, v):
        """'zero' | the runner whose recorded load v is | None"""
        if v is K(0):
            return "zero"
        if v.k == "y" and v.a[0].k == "f" and v.a[0].a[2] == "Some.0":
            g = v.a[0].a[0]
            if g.k == "pure" and g.a[0] == "get" and self.place(g.a[1][0]) == "count" and g.a[1][1].k == "y":
                f = g.a[1][1].a[0]
                if f.k == "f" and f.a[2] == "id":
                    return f.a[0]
        return None

    def place(self, v):
        return self.maps.get(v.a[0].a[2]) if v.k == "y" and v.a[0].k == "f" else None

    def unrecorded(self, E, st, x):
        i = Y(self.rf(x, "id"))
        return any(l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][1] is i and self.place(l.a[0].a[1][0]) == "count" and f == ("=", 0)
                   for l, f in st.facts.items())

    def is_low(self, E, st, c):
        """is the load c known not to exceed the followed runner's?"""
        if c is None:
            return False
        if c == "zero":
            return self.g(st, "zero") or any(self.unrecorded(E, st, x) for x in (self.wit,) + tuple(self.g(st, "low"))) or any(
                l.k == "discr" and f == ("=", 0) and l.a[0].k == "pure" and l.a[0].a[0] == "get" and self.place(l.a[0].a[1][0]) == "count" and
                "low" in self.oldtags(l.a[0].a[1][1]) for l, f in st.facts.items())
        if c is self.wit or c in self.g(st, "low"):
            return True
        if c.k == "old":
            t = self.tags(E, st, c)
            return "low" in t or ("zero" in t or self.unrecorded(E, st, c)) and self.is_low(E, st, "zero")
        return self.unrecorded(E, st, c) and self.is_low(E, st, "zero")

    def oldtags(self, v):
        """what is known of the runner whose id v is, if the loop has gone on from it"""
        l = v.a[0] if v.k == "y" else None
        return self.tags(None, None, l.a[0]) if l is not None and l.k == "f" and l.a[2] == "id" and l.a[0].k == "old" else ()

    def on_fact(self, E, st, l, n):
        if l.k == "discr" and n == 1 and l.a[0].k == "pure" and l.a[0].a[0] == "get" and self.place(l.a[0].a[1][0]) == "count" and "zero" in self.oldtags(l.a[0].a[1][1]):
            return False  # it had none
        if l.k == "pure" and l.a[0] == "lt" or l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get":
            while self.spread(E, st):
                pass
        return True

    def spread(self, E, st):
        """what follows from the comparisons made so far"""
        for l, f in st.facts.items():
            if f == ("=", 0) and l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and self.place(l.a[0].a[1][0]) == "count":
                t = self.oldtags(l.a[0].a[1][1])
                if t and "low" not in t and self.is_low(E, st, "zero"):
                    x = l.a[0].a[1][1].a[0].a[0]
                    E.relabel(st, x, self.earlier(x.a[0], t | {"low"}))
                    return True
        for l, f in st.facts.items():
            if l.k != "pure" or l.a[0] != "lt" or f[0] != "=":
                continue
            x, y = (self.count_of(v) for v in l.a[1])
            if f[1] == 0:
                x, y = y, x
            # x <= y
            if x is None or not self.is_low(E, st, y) or self.is_low(E, st, x):
                continue
            if x == "zero":
                self.s(st, zero=True)
            elif x.k == "old":
                if len(x.a) < 2:
                    continue
                E.relabel(st, x, self.earlier(x.a[0], self.tags(E, st, x) | {"low"}))
            else:
                self.s(st, low=tuple(sorted(set(self.g(st, "low")) | {x}, key=show)))
            return True
        return False

    # --- what is known of a runner
    def host_names(self, x):
        o, a = Y(self.rf(x, "os")), Y(self.rf(x, "arch"))
        return (mk("fmt", (S("host/"), o)), mk("fmt", (S("host/"), o, S("-"), a)))

    def eqs(self, E, st, x):
        r = []
        for h in self.host_names(x):
            f = None
            for l, v in st.facts.items():
                if l.k == "pure" and l.a[0] == "eq" and set(l.a[1]) == {h, Y(self.name)} and v[0] == "=":
                    f = v[1]
            r.append(f)
        return r

    def last(self):
        return [v for v in (self.lastget,) if v]

    def tags(self, E, st, x):
        if x.k == "old":
            return set(x.a[1].split(",")) if len(x.a) > 1 else set()
        t = set()
        d, h = E.fact(st, self.rf(x, "support_docker")), E.fact(st, self.rf(x, "support_host"))
        if d is not None:
            t.add("dock" if d else "nodock")
        e = self.eqs(E, st, x)
        if h == 1 and 1 in e:
            t.add("host")
        if h == 0 or e == [0, 0]:
            t.add("nohost")
        if self.is_low(E, st, x):
            t.add("low")
        i = Y(self.rf(x, "id"))
        for l, v in st.facts.items():
            if l.k == "pure" and l.a[0] == "eq" and i in l.a[1] and v[0] == "=":
                o = l.a[1][1] if l.a[1][0] is i else l.a[1][0]
                if self.lastused(o):
                    t.add("last" if v[1] else "notlast")
        return t

    def lastused(self, o):
        if o.k == "y" and o.a[0].k == "f" and o.a[0].a[2] == "Some.0":
            g = o.a[0].a[0]
            return g.k == "pure" and g.a[0] == "get" and self.place(g.a[1][0]) == "job" and g.a[1][1] is self.job
        return False

    def on_regen(self, E, st, l):
        if l.k == "el" and l.a[0] is self.runners:
            t = self.tags(E, st, l)
            self.s(st, low=tuple(x for x in self.g(st, "low") if x is not l))
            if self.unrecorded(E, st, l):
                t.add("zero")
            return self.earlier(l, t)
        return None

    def earlier(self, l, t):
        return mk("old", l, ",".join(sorted(t)))

    def witness(self, E, st, L):
        return L is self.runners

    # --- books
    def on_lock(self, E, st, g, c):
        # what the books said stays known after the lock is gone, but others may have changed them since
        if self.g(st, "locks") and (self.g(st, "zero") or self.g(st, "low") or any(self.of_loads(E, l) for l in st.facts)):
            self.s(st, stale=True)
        self.s(st, locks=tuple(sorted(set(self.g(st, "locks")) | {g.a[2]}, key=show)))

    def of_loads(self, E, l):
        """is l something that was looked up in the loads?"""
        if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and self.place(l.a[0].a[1][0]) == "count":
            return True
        return l.k == "pure" and l.a[0] == "lt" and any(self.count_of(v) not in (None, "zero") for v in l.a[1])

    def on_unlock(self, E, st, g):
        v = E.full(st, E.read(st, g.a[0], g.a[1]))
        had, ev = self.g(st, "eff"), []

        def go(v, d=3):
            if v.k in ("a", "o") and d:
                ad = self.P.adts.get(v.a[0]) if v.k == "a" else None
                for i, x in enumerate(v.a[2] if v.k == "a" else v.a[1]):
                    if v.k == "o":
                        n, x = x[0][1], x[1]
                    else:
                        n = ad["variants"][v.a[1]]["fields"][i][0] if ad else None
                    if n in self.maps:
                        if x.k == "hm":
                            if x.a[0] is None:
                                ev.append((self.maps[n], None, None))
                            for k, y in x.a[1]:
                                ev.append((self.maps[n], E.deep(st, k), None if y is TOMB else E.deep(st, y)))
                        elif not (x.k == "y" and x.a[0].k == "f"):
                            ev.append((self.maps[n], None, x))
                    else:
                        go(x, d - 1)
        go(v)
        ev = [e for e in ev if e not in had]
        if self.g(st, "stale") and any(e[0] == "count" for e in ev):
            self.s(st, lost=True)
        self.s(st, eff=(had + tuple(ev))[-8:])

    def on_exit(self, E, st, v):
        v = E.simp(st, E.deep(st, v))
        bad, did = self.bad, self.did
        c, sw = E.fact(st, mk("discr", self.con)), None
        for l, f in st.facts.items():
            if f[0] == "=":
                if l.k == "pure" and l.a[0] == "starts_with" and l.a[1] == (Y(self.name), S("host/")):
                    sw = f[1]
                if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "strip_prefix" and l.a[0].a[1] == (Y(self.name), S("host/")):
                    sw = f[1]
        kinds = {"docker"} if c == 0 or sw == 0 else {"host"} if sw == 1 else {"docker", "host"}
        empty = E.fact(st, mk("pure", "empty", (Y(self.runners),))) == 1 or E.fact(st, mk("pure", "len", (Y(self.runners),))) == 0
        w = self.tags(E, st, self.wit)
        eff = self.g(st, "eff")
        if v is NONE:
            did("P22", "none")
            for k in kinds:
                if not empty and {"docker": "nodock", "host": "nohost"}[k] not in w:
                    bad(st, "P22", "none:" + k, "no runner is picked for a %s step although a runner that can run it may be there" % k)
            did("P23", "no-effect")
            if eff:
                bad(st, "P23", "none:effect", "the bookkeeping changes although no runner was picked: %s" % self.text(eff))
            return
        x = v.a[2][0] if v.k == "a" and v.a[1] == 1 else None
        x = x.a[0] if x is not None and x.k == "y" else None
        if x is None or not (x is self.wit or x.k == "el" and x.a[0] is self.runners or x.k == "old" and len(x.a) > 1 and x.a[0].a[0] is self.runners):
            bad(st, "P22", "other", "the answer is %s, not one of the given runners" % show(v))
            return
        t = self.tags(E, st, x)
        for k in sorted(kinds):
            did("P22", "eligible:" + k)
            if {"docker": "dock", "host": "host"}[k] not in t:
                bad(st, "P22", "eligible:" + k, "a runner is picked for a %s step without its %s" % (k, "docker support having been checked" if k == "docker" else "host support and platform having been checked"))
        if "host" not in kinds:
            gone = any(l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and self.place(l.a[0].a[1][0]) == "job" and l.a[0].a[1][1] is self.job and f == ("=", 0) for l, f in st.facts.items())
            did("P22", "affinity")
            if "last" not in t and not gone and not (w & {"notlast", "nodock"}) and x is not self.wit:
                bad(st, "P22", "affinity", "a docker step goes to another runner although the runner of the job's last docker step may be there and able to run it")
            if "last" not in t:
                did("P23", "least-loaded")
                if not self.is_low(E, st, x) and "nodock" not in w:
                    bad(st, "P23", "load", "the runner picked for a docker step may have more steps running than another runner that can run it")
        self.books(E, st, x, eff, kinds)

    def text(self, eff):
        return ", ".join("%s[%s] = %s" % (m, show(k) if k is not None else "*", show(v) if type(v) is V else "removed") for m, k, v in eff)

    def books(self, E, st, x, eff, kinds):
        i = Y(self.rf(x, "id"))
        by = {m: [(k, v) for n, k, v in eff if n == m] for m in ("count", "step", "job")}
        self.did("P23", "books")
        if self.g(st, "lost"):
            self.bad(st, "P23", "stale", "the loads are read under one lock and changed under a later one: of two steps scheduled at once neither sees the other")
        if by["step"] != [(Y(self.step), i)]:
            self.bad(st, "P23", "books:step", "after picking a runner the step's entry changes by %s" % self.text([("step",) + e for e in by["step"]]))
        want = [(Y(self.step), i)]
        c = by["count"]
        good = len(c) == 1 and c[0][0] is i and type(c[0][1]) is V and (
            c[0][1] is K(1) and (self.unrecorded(E, st, x) or x.k == "old") or self.plus(c[0][1], i))
        if not good:
            self.bad(st, "P23", "books:count", "after picking a runner the loads change by %s" % self.text([("count",) + e for e in c]))
        if kinds == {"docker"} and by["job"] != [(self.job, i)]:
            self.bad(st, "P22", "books:job", "after picking a runner for a docker step the job's entry changes by %s" % self.text([("job",) + e for e in by["job"]]))
        if kinds == {"host"} and by["job"]:
            self.bad(st, "P22", "books:host", "a host step changes which runner the job's docker steps go to")

    def plus(self, v, i):
        """v is the recorded load of runner i, plus one"""
        if v.k != "y" or v.a[0].k not in ("pure", "op") or not str(v.a[0].a[0]).startswith("Add"):
            return False
        a = v.a[0].a[1]
        a = sorted(a, key=lambda y: y.k)
        return len(a) == 2 and a[0] is K(1) and a[1].k == "y" and q.mentions(a[1], i) and self.count_of(a[1]) is i.a[0].a[0]

    def on_panic(self, E, st, what, line):
        self.bad(st, "P22", "panic", "scheduling can panic: %s" % what)
        self.bad(st, "P23", "panic", "scheduling can panic: %s" % what)


def schedule(P, R, props):
    bs = q.impl_of(P, "Scheduler", "DefaultScheduler", "schedule")
    if not R.need(bs, "DefaultScheduler::schedule"):
        return None
    r = Sched(P, props)
    if set(r.maps.values()) != {"count", "step", "job"}:
        R.violation("anchor:books", "the scheduler keeps no book of %s" % sorted({"count", "step", "job"} - set(r.maps.values())))
        return None
    x = calls_one(P, R, "StepId", "job_id", [Y(r.step)])
    if x is None or len(x.exits) != 1:
        return None
    r.job = x.exits[0].v
    R.run(P, r, bs[0], args=[Y(r.me), Y(r.runners), Y(r.ctx)], is_async=True, auto=r.start())
    return r


def completions(P, R, r):
    """the other hooks give back what schedule recorded"""
    res = Y(mk("arg", "result"))
    for m, kind in (("on_step_completed", "step"), ("on_job_completed", "job")):
        bs = q.impl_of(P, "Scheduler", "DefaultScheduler", m)
        if not R.need(bs, "DefaultScheduler::" + m):
            continue
        s = Sched(P, {"P23"})
        s.job = r.job
        ad = q.adt(P, "StepRunResult" if kind == "step" else "JobRunResult", "astro_run")
        key = Y(wf.field_of(P, ad, mk("arg", "result"), "id"))
        ends = []

        def on_exit(E, st, v, s=s, ends=ends):
            ends.append((dict(st.facts), s.g(st, "eff"), E.path_text(st, 20), s.g(st, "lost")))
        s.on_exit = on_exit
        R.run(P, s, bs[0], args=[Y(s.me), res], auto=s.start())
        for facts, eff, path, lost in ends:
            by = {k: [(a, b) for n, a, b in eff if n == k] for k in ("count", "step", "job")}
            R.ob("given-back:" + kind)
            if lost:
                R.violation("complete:%s:stale" % kind, "%s reads the loads under one lock and changes them under a later one: what was scheduled between is lost" % m, path=path)
            if by["job" if kind == "step" else "step"] or kind == "job" and by["count"]:
                R.violation("complete:%s:other" % kind, "%s also changes %s" % (m, s.text(eff)), path=path)
            if [(k, type(v) is V) for k, v in by[kind]] != [(key, False)]:
                # nothing to remove when there is no such entry
                if by[kind] or not absent(facts, key, s, kind):
                    R.violation("complete:%s:entry" % kind, "%s changes the entries of %ss by %s" % (m, kind, s.text([(kind,) + e for e in by[kind]])), path=path)
            if kind == "step":
                books(R, s, facts, by["count"], key, path)


def absent(facts, key, s, kind):
    return any(l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][1] is key and s.place(l.a[0].a[1][0]) == kind and f == ("=", 0) for l, f in facts.items())


def books(R, s, facts, c, key, path):
    """the load of the step's runner goes down by one, once; an entry may only vanish when nothing is left"""
    g = [l for l in facts if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][1] is key and s.place(l.a[0].a[1][0]) == "step"]
    if not g or facts[g[0]] == ("=", 0):
        if c or not g:
            R.violation("complete:unknown", "completing a step that was not scheduled changes the loads: %s" % s.text([("count",) + e for e in c]) if c else
                        "completing a step does not depend on its having been scheduled", path=path)
        return
    R.ob("load-given-back")
    who = Y(fld(g[0].a[0], 0, "Some.0"))
    n = [l for l in facts if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][1] is who and s.place(l.a[0].a[1][0]) == "count"]
    if n and facts[n[0]] == ("=", 0):
        if any(k is not who or type(v) is V and v is not K(0) for k, v in c):
            R.violation("complete:none", "completing a step whose runner has no load changes the loads by %s" % s.text([("count",) + e for e in c]), path=path)
        return
    old = Y(fld(n[0].a[0], 0, "Some.0")) if n else None
    if old is None or len(c) != 1 or c[0][0] is not who:
        R.violation("complete:count", "completing a step changes the loads by %s" % s.text([("count",) + e for e in c]), path=path)
        return
    v = c[0][1]
    if type(v) is V:
        if not (v.k == "y" and v.a[0].k in ("pure", "op") and str(v.a[0].a[0]).startswith("Sub") and tuple(v.a[0].a[1]) == (old, K(1))):
            R.violation("complete:minus", "completing a step sets its runner's load to %s" % show(v), path=path)
        return
    # removed: nothing may be left
    less = None
    for l, f in facts.items():
        if l.k == "pure" and l.a[0] in ("lt", "eq") and q.mentions(Y(l), old) and f[0] == "=":
            a, b = l.a[1]
            sub = lambda y: y.k == "y" and y is not old and q.mentions(y, old)
            if l.a[0] == "lt" and (a is K(0) and sub(b) and f[1] == 0 or sub(a) and b is K(1) and f[1] == 1 or
                                   a is K(1) and b is old and f[1] == 0 or a is old and b is K(2) and f[1] == 1 or sub(a) and b is K(0) and f[1] == 1):
                less = True
            if l.a[0] == "eq" and f[1] == 1 and (K(0) in (a, b) and (sub(a) or sub(b)) or K(1) in (a, b) and old in (a, b)):
                less = True
    f = facts.get(old.a[0])
    if f == ("=", K(1)) or f == ("=", 1) or any(l.k in ("pure", "op") and str(l.a[0]).startswith("Sub") and l.a[1] == (old, K(1)) and x in (("=", 0), ("=", K(0))) for l, x in facts.items()):
        less = True
    if not less:
        R.violation("complete:lost", "a runner's load is forgotten although it may have other steps running", path=path)
