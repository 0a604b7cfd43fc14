"""P44: a hook that is not implemented changes nothing and succeeds."""
from ar.summ import Summary
from ar.vals import *

RULE = ("Exact value summaries (abstract interpretation over MIR) of every method that a hook trait (Runner, both Plugin traits, Scheduler) provides: on every path it returns success - what it was given for hooks that transform a value, "
        "nothing resolved for those that look something up - without waiting, starting a task or panicking.")
ASSUME = ["log macros have no other effect than logging"]
TRAITS = (("astro_run::runner::Runner", 9), ("astro_run::plugins::Plugin", 10), ("astro_runner::plugin::Plugin", 2), ("astro_run_scheduler::Scheduler", 6))


class Hook(Summary):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.bad = []

    def on_call(self, E, st, c):
        m = (c.name or "").rsplit("::", 1)[-1]
        if m in ("lock", "try_lock", "write", "try_write", "store", "fetch_add", "swap") or m in ("send", "try_send") and c.id not in E.P.bodies:
            self.bad.append(("touches state that others use (%s)" % m, E.path_text(st, 10)))
        return None

    def on_await(self, E, st, l, c):
        self.bad.append(("waits for something", E.path_text(st, 10)))
        return None

    def on_spawn(self, E, st, *a):
        self.bad.append(("starts a task", E.path_text(st, 10)))
        return "skip"


def run(P, R):
    for crate_last, n in TRAITS:
        crate, last = crate_last.split("::")[0], crate_last.split("::")[-1]
        ts = [t for t in P.traits if t.split("::")[0] == crate and t.split("::")[-1] == last and any(m.startswith("on_") for m in P.traits[t])]
        if not R.need(ts, "trait %s of %s" % (last, crate)):
            return
        k = 0
        for t in ts:
            for m, (bid, provided) in sorted(P.traits[t].items()):
                b = P.bodies.get(bid)
                if not provided or b is None or not m.startswith("on_"):
                    continue
                k += 1
                r = Hook(name=m)
                arg = Y(mk("arg", "given"))
                R.run(P, r, b, args=[Y(mk("arg", "self"))] + [arg] * (b.argc - 1), auto=())
                where = "%s:%s" % (b.file, b.line)
                name = "%s::%s" % (last, m)
                for w, p in r.panics:
                    R.violation("panic:" + name, "the provided hook %s can panic: %s" % (name, w), where, p)
                for w, p in r.bad:
                    R.violation("effect:" + name, "the provided hook %s %s" % (name, w), where, p)
                for x in r.exits:
                    R.ob("hook")
                    v = x.v
                    want = [UNIT, ok(UNIT)] if not m.startswith(("on_before", "on_resolve")) else [ok(arg)] if m.startswith("on_before") else [ok(NONE)]
                    if v not in want:
                        R.violation("result:" + name, "the provided hook %s returns %s" % (name, show(v)), where, x.path)
                if not r.exits:
                    R.violation("never:" + name, "the provided hook %s never returns" % name, where)
        if k < n:
            R.violation("missing:" + last, "%d of the %d provided hooks of %s %s are there" % (k, n, crate, last))
    R.floor(None, "hook", 27)
