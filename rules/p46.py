"""P46: no lock is held while foreign code runs or something is awaited; locks are taken in one order."""
from . import locks

RULE = ("Forward may-dataflow over the MIR of every body (coroutines before their transformation) of the guards that are alive - of parking_lot, std, tokio, RefCell -, with summaries of what a call acquires or calls, transitively to a fixpoint: "
        "with a guard alive there is no call of a hook, runner, scheduler, plugin or callback, no poll of a foreign future or stream, no await (but for an asynchronous lock) and no acquisition, however deep, of a lock of the same class; "
        "the acquired-while-held relation has no cycle.")
ASSUME = ["two locks that protect the same type are taken to be the same lock", "conversions, clones, drops and wakers that a user supplies do not call back into the library",
          "the logger a user installs does not call back into the library"]


def run(P, R):
    L = locks.Locks(P)
    acq, usr, blk = L.effects()
    order = {}
    for i, evs in L.calls.items():
        b = L.bodies[i]
        for k, held, d, line in evs:
            R.ob({"acquire": "acquisition", "user": "foreign call", "yield": "await", "call": "call", "poll": "await of an own function", "block": "blocking call", "offload": "offloaded"}[k])
            sync = [h for h in held if not h[2]]
            where = "%s:%s" % (b.file, line)
            if k == "acquire":
                got = {d[0]: ()} if d[1] else {}
                foreign = {}
            elif k == "user":
                got, foreign = {}, {d: ()}
            elif k == "poll" or k == "call" and d in L.bodies and not L.bodies[d].coroutine:
                got, foreign = acq[d], usr[d]
            elif k == "yield":
                got = foreign = {}
                for h in sync:
                    R.violation("await:%s" % locks.short(h), "something is awaited while the lock of %s is held in %s" % (locks.short(h), b.n), where)
            else:
                continue
            if not held:
                continue
            for h in held:
                for f, p in foreign.items():
                    R.violation("foreign:%s:%s" % (f, locks.short(h)), "%s is called while the lock of %s is held in %s" % (f, locks.short(h), b.n), where, list(p))
                for g, p in got.items():
                    if g[0] == h[0]:
                        R.violation("again:%s" % locks.short(h), "the lock of %s is taken while it is held in %s" % (locks.short(h), b.n), where, list(p))
                    else:
                        order.setdefault((h[0], g[0]), (where, b.n, p))
    nodes = {}
    for a, c in order:
        nodes.setdefault(a, set()).add(c)

    def reach(a, t, seen):
        if a == t:
            return [a]
        if a in seen:
            return None
        seen.add(a)
        for n in sorted(nodes.get(a, ())):
            r = reach(n, t, seen)
            if r:
                return [a] + r
    for (a, c), (where, name, p) in sorted(order.items()):
        R.ob("nested")
        r = reach(c, a, set())
        if r:
            R.violation("order:%s:%s" % tuple(sorted((locks.short((a, "")), locks.short((c, ""))))),
                        "the lock of %s is taken while that of %s is held in %s, and elsewhere the other way round" % (locks.short((c, "")), locks.short((a, "")), name), where,
                        list(p) + ["%s is held when %s is taken: %s" % (x, y, order[x, y][0]) for x, y in zip(r, r[1:])])
    R.note("functions_analysed", len(L.bodies))
    R.note("order", ["%s -> %s" % k for k in sorted(order)])
    for n, k in (("acquisition", 15), ("foreign call", 30), ("await", 60), ("call", 400)):
        R.floor(None, n, k)
