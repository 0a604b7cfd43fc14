"""P09: a job signal is set once, wakes its receiver, and is delivered once."""
from ar import q
from ar.cell import CellRule
from ar.vals import *

RULE = ("Typestate over the critical sections of the signal cell: every path of every public operation is followed through the MIR; "
        "a write of the stored signal must see the field empty under the same lock acquisition, wake the stored waker, and a receive "
        "may return the signal only while marking it delivered.")
ASSUME = ["parking_lot::Mutex excludes other critical sections between lock and guard drop",
          "std::task::Waker::wake reschedules the task that registered the waker"]

ERRK = 1


class R09(CellRule):
    def __init__(self, adt, payload, waker, kind, want=None):
        super().__init__(adt, payload, waker)
        self.kind = kind
        self.want = want

    def on_panic(self, E, st, what, line):
        self.flag(st, "panic:" + self.kind, "%s can panic: %s" % (self.kind, what))

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        sets = self.events(st, "set")
        k = self.kind
        if self.events(st, "clear"):
            self.flag(st, "cleared:" + k, "%s erases a signal that was already set" % k)
        for s in sets:
            if not s[3]:
                self.flag(st, "overwrite:" + k, "%s writes the signal without having seen it unset under the same lock" % k)
            if not self.woken(E, st, s[1]):
                self.flag(st, "nowake:" + k, "%s sets the signal and leaves without waking the receiver registered under that lock" % k)
        if k in ("cancel", "timeout"):
            isok = v.k == "a" and v.a[1] == 0
            self.ob("setter-exit")
            if isok:
                if len(sets) != 1:
                    self.flag(st, "okset:" + k, "%s reports success on a path that stores %d signals" % (k, len(sets)))
                elif not (sets[0][2].k == "a" and sets[0][2].a[1] == 1 and sets[0][2].a[2][0].k == "a" and sets[0][2].a[2][0].a[1] == self.want):
                    self.flag(st, "kind:" + k, "%s stores another signal kind: %s" % (k, show(sets[0][2])))
                self.ob("set-under-lock:" + k)
            elif v.k == "a" and v.a[1] == 1:
                if sets:
                    self.flag(st, "errset:" + k, "%s reports failure after storing a signal" % k)
                # it may only refuse when a signal is already there
                secs = self.events(st, "sec")
                seen = False
                for s in secs:
                    l = self.lockfield(s[1], self.payload)
                    if l is not None and E.fact(st, mk("discr", l)) == 1:
                        seen = True
                if not seen:
                    self.flag(st, "refuse:" + k, "%s refuses although no signal was seen set" % k)
                self.ob("refused-when-set:" + k)
            else:
                self.flag(st, "ret:" + k, "%s returns %s" % (k, show(v)))
        elif k in ("is_cancelled", "is_timeout"):
            if sets:
                self.flag(st, "qset:" + k, "%s changes the signal" % k)
            secs = self.events(st, "sec")
            if not secs:
                self.flag(st, "nolock:" + k, "%s does not look at the stored signal" % k)
                return
            l = self.lockfield(secs[-1][1], self.payload)
            v = E.simp(st, v)
            self.ob("query:" + k)
            d = E.fact(st, mk("discr", l))
            p = E.fact(st, mk("discr", fld(l, 0, "Some.0")))
            if v is TRUE:
                if not (d == 1 and p == self.want):
                    self.flag(st, "qtrue:" + k, "%s answers true although the stored signal is not known to be that kind" % k)
            elif v is FALSE:
                if not (d == 0 or (d == 1 and p is not None and p != self.want)):
                    self.flag(st, "qfalse:" + k, "%s answers false although the stored signal may be that kind" % k)
            elif not (d == 1 and v is E.eq(st, Y(mk("discr", fld(l, 0, "Some.0"))), K(self.want))):
                self.flag(st, "qval:" + k, "%s returns %s" % (k, show(v)))
        elif k == "poll":
            self.poll_exit(E, st, v)

    def poll_exit(self, E, st, v):
        secs = self.events(st, "sec")
        if self.events(st, "set"):
            self.flag(st, "pollset", "receiving stores a signal")
        if not secs:
            self.flag(st, "pollnolock", "receiving does not look at the stored signal")
            return
        g, content = secs[-1][1], secs[-1][2]
        l = self.lockfield(g, self.payload)
        wi = self.names.index(self.waker)
        wfin = E.proj(st, content, ("f", wi, self.waker))
        if v.k == "a" and v.a[1] == 1:  # Pending
            self.ob("pending")
            flags = [n for n in self.names if n not in (self.payload, self.waker)]
            delivered = any(E.fact(st, self.lockfield(g, n)) == 1 for n in flags)
            if delivered:
                return
            if E.fact(st, mk("discr", l)) != 0:
                self.flag(st, "lost", "receiving stays pending although a signal may be stored and undelivered")
            if not self.registered(E, st, g, wfin):
                self.flag(st, "nowaker", "receiving stays pending without registering the task's waker in the same critical section")
            self.ob("pending-registers-waker")
        elif v.k == "a" and v.a[1] == 0:
            self.ob("delivered")
            if v.a[2][0] is not Y(fld(l, 0, "Some.0")):
                self.flag(st, "value", "receiving yields %s, not the stored signal" % show(v.a[2][0]))
            flags = [n for n in self.names if n not in (self.payload, self.waker)]
            okf = False
            for n in flags:
                i = self.names.index(n)
                fin = E.proj(st, content, ("f", i, n))
                if E.fact(st, self.lockfield(g, n)) == 0 and fin is TRUE:
                    okf = True
            if not okf:
                self.flag(st, "twice", "receiving yields the signal without testing and setting the delivered mark under the same lock")
        else:
            self.flag(st, "pollret", "receiving returns %s" % show(v))


def run(P, R):
    adt, ix = q.struct_with(P, "astro_run", "Option<signals::signal::Signal>", "Option<core::task::wake::Waker>")
    if adt is None:
        adt, ix = q.struct_with(P, "astro_run", "::Signal>", "task::wake::Waker>")
    if not R.need(adt, "signal cell (a struct with the stored signal and the receiver's waker)"):
        return
    pay, wk = q.fname(adt, ix[0]), q.fname(adt, ix[1])
    sig = q.adt(P, "Signal", "astro_run")
    vi = {v["name"]: i for i, v in enumerate(sig["variants"])}
    for m, want in (("cancel", vi.get("Cancel")), ("timeout", vi.get("Timeout")), ("is_cancelled", vi.get("Cancel")),
                    ("is_timeout", vi.get("Timeout"))):
        bs = q.method(P, "astro_run", "AstroRunSignal", m)
        if not R.need(bs, "AstroRunSignal::" + m):
            continue
        rule = R09(adt, pay, wk, m, want)
        R.run(P, rule, bs[0])
        if m in ("cancel", "timeout"):
            R.floor(rule, "set-under-lock:" + m, 1)
            R.floor(rule, "refused-when-set:" + m, 1)
        else:
            R.floor(rule, "query:" + m, 2)
    polls = [b for b in q.impl_of(P, "Future", "Receiver", "poll") if b.crate == "astro_run"]
    if R.need(polls, "the receive future of a signal"):
        rule = R09(adt, pay, wk, "poll")
        R.run(P, rule, polls[0], is_async=False)
        R.floor(rule, "delivered", 1)
        R.floor(rule, "pending-registers-waker", 1)
    # every other function that writes the stored signal
    allowed = {b.id for m in ("cancel", "timeout") for b in q.method(P, "astro_run", "AstroRunSignal", m)}
    # a fresh signal is unset
    for b in q.method(P, "astro_run", "AstroRunSignal", "new"):
        rule = New(adt, pay, wk)
        R.run(P, rule, b)
        R.floor(rule, "fresh", 1)


class New(CellRule):
    def on_exit(self, E, st, v):
        cells = [x for k, x in st.mem.items() if k[0] == "H" and x.k == "a" and x.a[0] == self.adt["name"]]
        for x in cells:
            self.ob("fresh")
            for i, n in enumerate(self.names):
                f = x.a[2][i]
                if n in (self.payload, self.waker):
                    if f is not NONE:
                        self.flag(st, "new:" + n, "a new signal starts with %s = %s" % (n, show(f)))
                elif f is not FALSE:
                    self.flag(st, "new:" + n, "a new signal starts already delivered")
