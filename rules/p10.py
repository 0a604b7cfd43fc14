"""P10: the step stream keeps its first result, never loses a wake-up, and yields every log once, in order, before it ends."""
from ar import q
from ar.cell import CellRule
from ar.vals import *

RULE = ("Typestate over the critical sections of the stream's shared state: every path of every operation of the sender and the "
        "receiver is followed through the MIR; the result may be written only where it was seen empty under the same lock, each "
        "write and each log wakes the registered waker, the receiver yields logs[i] while moving i to i+1, ends only with the "
        "result set and i at the end, and stays pending only after registering its waker in the same critical section.")
ASSUME = ["parking_lot::Mutex excludes other critical sections between lock and guard drop",
          "std::task::Waker::wake reschedules the task that registered the waker",
          "the receiver is polled by one task at a time (poll_next takes &mut self)"]


def unlk(l):
    """the index read under different acquisitions of the receiver's own lock is the same cell"""
    if type(l) is not V:
        return tuple(unlk(x) for x in l) if type(l) is tuple else l
    if l.k in ("lk", "old"):
        x = l.a[0] if type(l.a[0]) is V else None
        if x is not None:
            return unlk(x)
    return mk(l.k, *[unlk(x) for x in l.a])


class R10(CellRule):
    def __init__(self, adt, payload, waker, logs, kind, want=None):
        super().__init__(adt, payload, waker)
        self.kind = kind
        self.want = want
        self.logs = logs
        self.idx = None

    def on_write(self, E, st, root, path, v, line):
        super().on_write(E, st, root, path, v, line)
        # a position kept outside the shared state
        if self.kind == "poll" and root[0] == "S":
            g, _ = self.inside(st, root, path)
            if g is None or not self.is_state(g):
                self.ev(st, "cursor", E.orig(root, path), v)

    def on_fact(self, E, st, l, n):
        # facts that justify the verdict must survive until the exit
        if l.k in ("discr", "pure"):
            self.ev(st, "know", l, n)
        return super().on_fact(E, st, l, n)

    def known(self, st, l):
        """facts recorded on this path, independent of garbage collection"""
        for e in reversed(st.auto[1] if st.auto else ()):
            if e[0] == "know" and e[1] is l:
                return e[2]
        return None

    def ev(self, st, *e):
        cur, evs = st.auto or ((), ())
        if e not in evs:
            st.auto = (cur, (evs + (e,))[-40:])

    def on_panic(self, E, st, what, line):
        self.flag(st, "panic:" + self.kind, "%s can panic: %s" % (self.kind, what))

    def on_exit(self, E, st, v):
        k = self.kind
        v = E.deep(st, v)
        sets = self.events(st, "set")
        pushes = self.events(st, "push")
        if self.events(st, "clear"):
            self.flag(st, "cleared:" + k, "%s erases a result that was already stored" % k)
        for s in sets:
            if not s[3]:
                self.flag(st, "overwrite:" + k, "%s writes the result without having seen it empty under the same lock" % k)
            self.wokechk(E, st, s[1], "result")
        for p in pushes:
            self.wokechk(E, st, p[1], "log")
            self.ob("log-appended:" + k)
        for e in self.events(st, "fld"):
            if e[2] == self.logs:
                self.flag(st, "logswrite:" + k, "%s replaces the stored logs" % k)
        if k in ("log", "error"):
            if len(pushes) != 1 or sets:
                self.flag(st, "onelog:" + k, "%s appends %d logs and stores %d results on one path" % (k, len(pushes), len(sets)))
            else:
                x = pushes[0][4]
                good = x.k == "a" and x.a[0].endswith("::Log") and self.logfields(x)
                if not good:
                    self.flag(st, "logvalue:" + k, "%s appends %s" % (k, show(x)))
        elif k in ("poll",):
            self.poll_exit(E, st, v)
        elif k in ("result", "is_ended"):
            if sets or pushes:
                self.flag(st, "qset:" + k, "%s changes the stream" % k)
            secs = [s for s in self.events(st, "sec") if self.lockfield(s[1], self.payload) is not None]
            l = self.lockfield(secs[-1][1], self.payload) if secs else None
            self.ob("query:" + k)
            if l is None:
                self.flag(st, "nolock:" + k, "%s does not look at the stored result" % k)
            elif k == "result" and not (v is Y(l) or v is NONE and self.known(st, mk("discr", l)) == 0 or
                                        v.k == "a" and v.a[1] == 1 and v.a[2][0] is Y(fld(l, 0, "Some.0"))):
                self.flag(st, "qval:" + k, "%s returns %s" % (k, show(v)))
            elif k == "is_ended":
                d = mk("discr", l)
                kn = self.known(st, d)
                if not (v is Y(d) or v is K(kn if kn is not None else -1) or v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "not" and kn is None and
                        v is E.neg(st, E.eq(st, Y(d), K(1)))  or v is E.eq(st, Y(d), K(1))):
                    self.flag(st, "qval:" + k, "%s returns %s" % (k, show(v)))
        else:
            self.ob("ender:" + k)
            if pushes:
                self.flag(st, "endlog:" + k, "%s appends a log" % k)
            if len(sets) == 1:
                x = sets[0][2]
                if not self.want(E, st, x):
                    self.flag(st, "kind:" + k, "%s stores another result: %s" % (k, show(x)))
                self.ob("result-stored:" + k)
            elif len(sets) == 0:
                seen = False
                for s in self.events(st, "sec"):
                    l = self.lockfield(s[1], self.payload)
                    if l is not None and self.known(st, mk("discr", l)) == 1:
                        seen = True
                if not seen:
                    self.flag(st, "dropped:" + k, "%s drops the result although none was seen stored" % k)
                self.ob("kept-first:" + k)

    def logfields(self, x):
        ad = self.E.P.adts[x.a[0]]
        names = [f[0] for f in ad["variants"][0]["fields"]]
        okm = okt = False
        for n, f in zip(names, x.a[2]):
            if f.k == "a" and f.a[0].endswith("WorkflowLogType"):
                vn = self.E.P.adts[f.a[0]]["variants"][f.a[1]]["name"]
                okt = vn == {"log": "Log", "error": "Error"}[self.kind]
            elif q.mentions(f, mk("arg", self.want)):
                okm = f is Y(mk("arg", self.want)) or (f.k == "y" and f.a[0].k == "pure" and f.a[0].a[0].startswith("into:"))
        return okm and okt

    def wokechk(self, E, st, g, what):
        w = self.lockfield(g, self.waker)
        if w is None:
            return
        if self.known(st, mk("discr", w)) == 0:
            return
        if any(e[1] is Y(fld(w, 0, "Some.0")) for e in self.events(st, "wake")):
            return
        self.flag(st, "nowake:%s:%s" % (self.kind, what), "%s stores a %s and leaves without waking the receiver registered under that lock" % (self.kind, what))

    def poll_exit(self, E, st, v):
        if self.events(st, "set") or self.events(st, "push"):
            self.flag(st, "pollset", "receiving changes the stream")
        secs = [s for s in self.events(st, "sec") if self.is_state(s[1])]
        if not secs:
            self.flag(st, "pollnolock", "receiving does not look at the shared state")
            return
        g, content = secs[-1][1], secs[-1][2]
        if len(secs) > 1:
            self.flag(st, "pollsplit", "receiving looks at the shared state under more than one lock acquisition")
        res = self.lockfield(g, self.payload)
        logs = self.lockfield(g, self.logs)
        curs = [(unlk(e[1]), unlk(e[2])) for e in self.events(st, "cursor")]
        lts = [(unlk(e[1]), e[2]) for e in self.events(st, "know") if e[1].k == "pure" and e[1].a[0] == "lt"]
        ulen = unlk(Y(mk("pure", "len", (Y(logs),))))
        pos = lambda x: x.k == "y" and x.a[0].k != "pure" and q.mentions(x, mk("arg", "self"))  # the read position itself
        atend = [l for l, n in lts if n == 0 and l.a[1][1] is ulen and pos(l.a[1][0])]
        eqs = [(unlk(e[1]), e[2]) for e in self.events(st, "know") if e[1].k == "pure" and e[1].a[0] == "eq"]
        atend += [l for l, n in eqs if n == 1 and ulen in l.a[1] and any(pos(x) for x in l.a[1])]
        wi = self.names.index(self.waker)
        wfin = E.proj(st, content, ("f", wi, self.waker))
        if v.k == "a" and v.a[1] == 1:
            self.ob("pending")
            if self.known(st, mk("discr", res)) != 0:
                self.flag(st, "lost", "receiving stays pending although the result may be stored")
            if not atend:
                self.flag(st, "lostlog", "receiving stays pending although a log may be left")
            if not self.registered(E, st, g, wfin):
                self.flag(st, "nowaker", "receiving stays pending without registering the task's waker in the same critical section")
            if curs:
                self.flag(st, "cursorpending", "receiving moves its position without yielding a log")
            return
        x = v.a[2][0] if v.k == "a" and v.a[1] == 0 else v
        if x is NONE:
            self.ob("end")
            if self.known(st, mk("discr", res)) != 1:
                self.flag(st, "earlyend", "receiving ends although no result is known to be stored")
            if not atend:
                self.flag(st, "endlost", "receiving ends although a log may be left")
            return
        if x.k == "a" and x.a[1] == 1:
            self.ob("yield")
            y = unlk(x.a[2][0])
            if not (y.k == "y" and y.a[0].k == "idx" and y.a[0].a[0] is unlk(logs)):
                self.flag(st, "value", "receiving yields %s, not the stored log at its position" % show(y))
                return
            i = y.a[0].a[1]
            good = [c for c in curs if c[0] is i and c[1] is Y(mk("pure", "Add", (i, K(1))))]
            if len(curs) != 1 or not good:
                self.flag(st, "cursor", "receiving yields the log at %s without moving its position by exactly one" % show(i))
            return
        self.flag(st, "pollret", "receiving returns %s" % show(v))

    def is_state(self, g):
        # the guard of the shared state is the one whose content has the result field
        return g.a[2] is not None and g.a[2] in self.statelk

    def on_lock(self, E, st, g, c):
        super().on_lock(E, st, g, c)
        ty = c.destty["s"] if c.destty else ""
        if self.adt["name"].split("::")[-1] in ty and g.a[2] is not None:
            self.statelk.add(g.a[2])

    @property
    def statelk(self):
        if not hasattr(self, "_slk"):
            self._slk = set()
        return self._slk


def run(P, R):
    adt, ix = q.struct_with(P, "astro_run", "RunResult>", "task::wake::Waker>", "Vec<")
    if not R.need(adt, "shared state of the step stream (a struct with logs, the stored result and the receiver's waker)"):
        return
    pay, wk, logs = [q.fname(adt, i) for i in ix]
    rr = q.adt(P, "RunResult", "astro_run")
    var = {v["name"]: i for i, v in enumerate(rr["variants"])}

    def variant(nm, code=None):
        def w(E, st, x):
            if not (x.k == "a" and x.a[1] == 1):
                return False
            x = x.a[2][0]
            if not (x.k == "a" and x.a[1] == var[nm]):
                return False
            return code is None or code(x)
        return w

    ends = {
        "succeeded": variant("Succeeded"),
        "cancelled": variant("Cancelled"),
        "failed": variant("Failed", lambda x: x.a[2][0] is Y(mk("arg", argn("failed")))),
        "timeout": variant("Failed", lambda x: x.a[2][0].k == "k" and x.a[2][0].a[0] != 0),
        "end": lambda E, st, x: x.k == "a" and x.a[1] == 1 and x.a[2][0] is Y(mk("arg", argn("end"))),
    }
    from ar.report import argname

    def argn(m):
        return argname(q.method(P, "astro_run", "StreamSender", m)[0], 1)

    for m, want in ends.items():
        bs = q.method(P, "astro_run", "StreamSender", m)
        if not R.need(bs, "StreamSender::" + m):
            continue
        rule = R10(adt, pay, wk, logs, m, want)
        R.run(P, rule, bs[0])
        R.floor(rule, "result-stored:" + m, 1)
        R.floor(rule, "kept-first:" + m, 1)
    for m in ("log", "error"):
        bs = q.method(P, "astro_run", "StreamSender", m)
        if R.need(bs, "StreamSender::" + m):
            rule = R10(adt, pay, wk, logs, m, argn(m))
            R.run(P, rule, bs[0])
            R.floor(rule, "log-appended:" + m, 1)
    for ty, m in (("StreamReceiver", "result"), ("StreamSender", "is_ended")):
        bs = q.method(P, "astro_run", ty, m)
        if R.need(bs, ty + "::" + m):
            rule = R10(adt, pay, wk, logs, m)
            R.run(P, rule, bs[0])
            R.floor(rule, "query:" + m, 1)
    polls = q.impl_of(P, "Stream", "StreamReceiver", "poll_next")
    if R.need(polls, "Stream for StreamReceiver"):
        rule = R10(adt, pay, wk, logs, "poll")
        R.run(P, rule, polls[0], is_async=False)
        for o in ("pending", "end", "yield"):
            R.floor(rule, o, 1)
    rest = [b for n, bs in P.byname.items() for b in bs if "::StreamSender::" in n and b.crate == "astro_run" and b.j.get("pub")
            and n.split("::")[-1] not in list(ends) + ["log", "error", "is_ended", "clone"] and "{" not in n]
    for b in rest:
        rule = Other(adt, pay, wk, logs, b.n.split("::")[-1])
        R.run(P, rule, b)


class Other(R10):
    """any other public operation of the sender: the general obligations only"""

    def on_panic(self, E, st, what, line):
        pass

    def on_exit(self, E, st, v):
        for s in self.events(st, "set"):
            if not s[3]:
                self.flag(st, "overwrite:" + self.kind, "%s writes the result without having seen it empty under the same lock" % self.kind)
            self.wokechk(E, st, s[1], "result")
        for p in self.events(st, "push"):
            self.wokechk(E, st, p[1], "log")
