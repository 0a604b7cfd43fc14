"""Helpers shared by the rules that compose exact value summaries."""
from ar import q
from ar.summ import MapSummary, Summary
from ar.vals import *


def calls_one(P, R, ty, m, args, crate="astro_run", cls=MapSummary, body=None, is_async=None, panics=False, **kw):
    """summary of a method; panics are violations unless allowed"""
    if body is None:
        bs = q.method(P, crate, ty, m)
        if not R.need(bs, "%s::%s" % (ty, m)):
            return None
        body = bs[0]
    r = cls(name=m, **kw)
    R.run(P, r, body, args=args, auto=(), is_async=is_async)
    if not panics:
        for w, p in r.panics:
            R.violation("panic:%s::%s" % (ty, m), "%s::%s can panic: %s" % (ty, m, w), path=p)
    return r


def chain(P, R, what, v, steps, crate="astro_run"):
    """apply builder methods [(type, method, further args)] to v; None if one of them has no single outcome"""
    for ty, m, args in steps:
        r = calls_one(P, R, ty, m, ([v] if v is not None else []) + list(args), crate)
        if r is None:
            return None
        if len(r.exits) != 1:
            R.violation("outcomes:%s:%s" % (what, m), "%s::%s has %d outcomes: %s" % (ty, m, len(r.exits), [show(x.v) for x in r.exits]))
            return None
        v = r.exits[0].v
        R.ob("composed")
    return v


def part(P, v, frag, depth=4):
    """the values of the fields (at any depth of aggregates) whose type contains frag"""
    out = []

    def go(v, d):
        if v.k == "a" and v.a[0] in P.adts and d:
            for (n, ty, _), x in zip(P.adts[v.a[0]]["variants"][v.a[1]]["fields"], v.a[2]):
                if frag in ty:
                    out.append(x)
                else:
                    go(x, d - 1)
        elif v.k == "a" and d:
            for x in v.a[2]:
                go(x, d)
    go(v, depth)
    return out


def same_as(v, l):
    """v is the value labelled l, possibly taken apart and put together again"""
    if v is Y(l):
        return True
    if v.k == "a":
        return all(x.k == "y" and x.a[0].k == "f" and x.a[0].a[0] is l and x.a[0].a[1] == i or
                   x.k == "a" and same_as(x, fld(l, i, "?")) for i, x in enumerate(v.a[2]))
    return False


def clones(P, R):
    """a hand-written Clone of the workspace yields an equal value (derived ones do)"""
    for (t, a), m in sorted(P.impls.items()):
        if not t.endswith("clone::Clone") or m.get("clone") not in P.bodies:
            continue
        b = P.bodies[m["clone"]]
        R.ob("clone-impl")
        if b.exp or "_inner::" in a or a.endswith("::ContextPayload"):
            continue
        me = mk("arg", "self")
        r = Summary(name="clone")
        R.run(P, r, b, args=[Y(me)], auto=())
        for x in r.exits:
            if not same_as(x.v, me):
                R.violation("clone:" + a, "the copy of a %s is %s" % (a.rsplit("::", 1)[-1], show(x.v)), "%s:%s" % (b.file, b.line), x.path)
