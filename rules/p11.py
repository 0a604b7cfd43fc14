"""P11: a job can be cancelled by its id from before its start is announced until its last step has ended, and then no more."""
from ar import q
from ar.summ import MapSummary
from ar.vals import *
from . import wf

RULE = ("Typestate of Job::run (a fresh signal registered once under the job's own id in the context's own manager before the start is announced, kept while steps run, "
        "removed on every exit) and exact map-effect summaries of the signal manager and of both cancel_job entry points, and of how a context gets its manager.")
ASSUME = wf.ASSUME + ["HashMap keeps one entry per key (JobId: derived Eq and Hash)"]


def one(P, R, ty, m, args, crate="astro_run", **kw):
    bs = q.method(P, crate, ty, m)
    if not R.need(bs, "%s::%s" % (ty, m)):
        return None
    r = MapSummary(name=m, **kw)
    R.run(P, r, bs[0], args=args, auto=())
    for w, p in r.panics:
        R.violation("panic:%s::%s" % (ty, m), "%s::%s can panic: %s" % (ty, m, w), path=p)
    return r.exits


def sig(E, st, c):
    n = c.name or ""
    if n.startswith("astro_run::") and "::AstroRunSignal::" in n:
        return n.rsplit("::", 1)[1]


def run(P, R):
    wf.levels(P, R, ["job"], {"registered": 1, "dispatch": 1, "ends:completed": 1, "ends:skipped": 1})
    me, i, s = mk("arg", "self"), Y(mk("arg", "id")), Y(mk("arg", "signal"))
    mgr = q.adt(P, "SignalManager", "astro_run")
    if not R.need(mgr, "SignalManager"):
        return
    maps = set()

    def effects(what, xs, tag, more=()):
        for x in xs or ():
            ins = [e[1] for e in x.ev if e[0] in ("insert", "remove")]
            if [e[0] for e in x.ev if e[0] in ("insert", "remove")] != [tag] or ins[0][1] is not i or tuple(ins[0][2:]) != more:
                R.violation("effect:" + what, "%s changes the registered signals by %s" % (what, [(e[0], show(e[1][1])) for e in x.ev if e[0] in ("insert", "remove")]), path=x.path)
            else:
                maps.add(ins[0][0])
            R.ob("manager:" + what)

    effects("register_signal", one(P, R, "SignalManager", "register_signal", [Y(me), i, s]), "insert", (s,))
    effects("unregister_signal", one(P, R, "SignalManager", "unregister_signal", [Y(me), i]), "remove")
    for x in one(P, R, "SignalManager", "get_signal", [Y(me), i]) or ():
        R.ob("manager:get_signal")
        lk = [e[1] for e in x.ev if e[0] == "lookup"]
        v = x.v.a[2][0] if x.v.k == "a" and x.v.a[1] == 1 and x.v.a[0].endswith("Option") else x.v
        if x.v is NONE and lk and lk[-1][2] is not K(1) and lk[-1][1] is i:
            continue
        if [e for e in x.ev if e[0] in ("insert", "remove")] or not lk or lk[-1][1] is not i or v.k != "y" or not found(v, i):
            R.violation("effect:get_signal", "get_signal answers %s" % show(x.v), path=x.path)
        else:
            maps.add(lk[-1][0])
    if len(maps) != 1:
        R.violation("maps", "signals are registered, removed and looked up in different places: %s" % sorted(show(m) for m in maps))
    for ty in ("SignalManager", "ExecutionContext", "AstroRun"):
        a = q.adt(P, ty, "astro_run")
        ms = [f[0] for f in a["variants"][0]["fields"] if f[1].endswith("SignalManager")] if a else []
        root = me if ty == "SignalManager" else q.field(me, a, ms[0]) if ms else None
        if not R.need(root, "the signal manager of " + ty):
            continue
        seen = set()
        for x in one(P, R, ty, "cancel_job", [Y(me), i], watch=sig) or ():
            lk = [e[1] for e in x.ev if e[0] == "lookup"]
            cs = x.calls("cancel")
            oth = [e for e in x.ev if e[0] in ("insert", "remove")] + [e for e in x.calls() if e[0] not in ("cancel", "insert", "remove", "lookup")]
            if oth:
                R.violation("cancel:effects:" + ty, "%s::cancel_job also does %s" % (ty, ", ".join(e[0] for e in oth)), path=x.path)
            if not lk or any(k[1] is not i for k in lk) or not all(under(k[0], root) for k in lk):
                R.violation("cancel:lookup:" + ty, "%s::cancel_job looks for %s" % (ty, [(show(k[0]), show(k[1])) for k in lk]), path=x.path)
                continue
            if not cs:
                # no signal under that id
                if not (x.v.k == "a" and x.v.a[1] == 1):
                    R.violation("cancel:unknown:" + ty, "%s::cancel_job answers %s for a job that is not running" % (ty, show(x.v)), path=x.path)
                seen.add("unknown")
                R.ob("cancel:unknown:" + ty)
                continue
            tag, args, l = cs[0]
            if len(cs) != 1 or args[0].k != "y" or not found(args[0], i):
                R.violation("cancel:target:" + ty, "%s::cancel_job cancels %s" % (ty, show(args[0])), path=x.path)
            d = x.known(mk("discr", l))
            if x.v is not Y(l) and not (x.v.k == "a" and d is not None and x.v.a[1] == d):
                R.violation("cancel:result:" + ty, "%s::cancel_job answers %s although setting the signal may have answered otherwise" % (ty, show(x.v)), path=x.path)
            seen.add("set")
            R.ob("cancel:set:" + ty)
        if seen != {"unknown", "set"}:
            R.violation("cancel:cases:" + ty, "%s::cancel_job only has the cases %s" % (ty, sorted(seen)))
    # a context made by an AstroRun shares its manager
    xs = one(P, R, "AstroRun", "execution_context", [Y(me)])
    a = q.adt(P, "AstroRun", "astro_run")
    f = [f[0] for f in a["variants"][0]["fields"] if f[1].endswith("SignalManager")]
    want = Y(q.field(me, a, f[0])) if f else None
    for x in xs or ():
        ys = one(P, R, "ExecutionContextBuilder", "build", [x.v])
        for y in ys or ():
            R.ob("context-shares-manager")
            ca = q.adt(P, "ExecutionContext", "astro_run")
            k = [n for n, fl in enumerate(ca["variants"][0]["fields"]) if fl[1].endswith("SignalManager")]
            have = y.v.a[2][k[0]] if y.v.k == "a" and k else None
            if have is None or want is None or have is not want and not (have.k == "a" and all(
                    p is Y(fld(want.a[0], n, fl[0])) for n, (p, fl) in enumerate(zip(have.a[2], mgr["variants"][0]["fields"])))):
                R.violation("context:manager", "the contexts of an AstroRun use the manager %s" % (show(have) if have is not None else "?"), path=y.path)
    R.floor(None, "context-shares-manager", 1)


def found(v, i):
    """v is what a lookup of key i gave"""
    return any(l.k == "pure" and l.a[0] == "get" and l.a[1][-1] is i for l in q.labels(v))


def under(place, root):
    """the place (label, path) lies under a label"""
    l, p = place.a
    txt = show(place).lstrip("&")
    if type(l) is V and q.mentions(l, root):
        return True
    want = []
    r = root
    while r.k == "f":
        want.append(r.a[2])
        r = r.a[0]
    names = [x[2] for x in p if x[0] == "f"]
    return (l is r or type(l) is tuple and r in l) and names[:len(want)] == list(reversed(want))
