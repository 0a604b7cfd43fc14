"""The ids of workflows, jobs and steps: parts, text form and back."""
from ar import q
from ar.natives import mkit, strcat
from ar.summ import Summary
from ar.vals import *
from .common import calls_one

TRY = ("TryFrom::try_from", "FromStr::from_str")
SEP = "/"


def pieces(v):
    """texts between the separators of a text whose unknown parts contain none; None: not such a text"""
    if v.k == "s":
        return [S(x) for x in v.a[0].split(SEP)]
    if v.k == "y":
        return [v]
    if v.k != "fmt":
        return None
    out = [[]]
    for p in v.a[0]:
        if p.k == "s":
            xs = p.a[0].split(SEP)
            out[-1].append(S(xs[0]))
            out += [[S(x)] for x in xs[1:]]
        else:
            out[-1].append(p)
    return [strcat(o) for o in out]


def join(xs):
    o = []
    for i, x in enumerate(xs):
        if i:
            o.append(S(SEP))
        o.append(x)
    return strcat(o)


class Text(Summary):
    """texts are taken apart at their separators"""

    def start(self):
        return ()

    def on_fmt(self, E, st, s):
        st.auto = st.auto + (s,)

    def on_call(self, E, st, c):
        n = c.name or ""
        if n in ("core::convert::Into::into", "core::convert::From::from") and c.destty["s"] == "alloc::string::String" and E.full(st, c.args[0]).k in ("y", "s", "fmt"):
            return E.full(st, c.args[0])
        if n.endswith("str::parse") or n == "core::str::traits::FromStr::from_str" and c.id not in E.P.bodies:
            v = E.full(st, c.args[0])
            t = c.destty["s"]
            if v.k == "s":
                return ok(K(int(v.a[0]))) if v.a[0].isdigit() and int(v.a[0]) < 2 ** 32 else err(Y(E.fresh(st, c)))
            if v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "display":
                return ok(v.a[0].a[1][0])
            s2 = st.copy()
            l = mk("pure", "parsed", (E.deep(st, v),))
            if not E.assume(s2, mk("pure", "number", (E.deep(st, v),)), 0):
                s2 = None
            res = E.fin(s2, c, err(Y(E.fresh(s2, c)))) if s2 is not None else []
            if E.assume(st, mk("pure", "number", (E.deep(st, v),)), 1):
                res += E.fin(st, c, ok(Y(l)))
            return res or "kill"
        if not n.startswith("str::") and not n.startswith("core::str::"):
            return None
        m = n.rsplit("::", 1)[1]
        if m not in ("split", "rsplit", "splitn", "rsplitn", "split_once", "rsplit_once", "split_terminator", "contains", "matches", "strip_prefix", "strip_suffix", "starts_with", "ends_with"):
            return None
        a = [E.full(st, x) for x in c.args]
        pat = a[-1]
        sep = pat.k == "k" and pat.a[0] == ord(SEP) or pat.k == "s" and pat.a[0] == SEP
        if pat.k in ("a", "clo", "o") and m in ("split", "matches", "contains"):
            sep = True if self.closed(E, pat) else sep
        xs = pieces(a[0])
        if not sep or xs is None:
            return None
        if m == "split":
            return mkit(E, c, [("one", x) for x in xs])
        if m == "rsplit":
            return mkit(E, c, [("one", x) for x in reversed(xs)])
        if m == "splitn" and a[1].k == "k":
            k = a[1].a[0]
            return mkit(E, c, [("one", x) for x in (xs if len(xs) <= k else xs[:k - 1] + [join(xs[k - 1:])])])
        if m == "rsplitn" and a[1].k == "k":
            k = a[1].a[0]
            return mkit(E, c, [("one", x) for x in (list(reversed(xs)) if len(xs) <= k else list(reversed(xs[len(xs) - k + 1:])) + [join(xs[:len(xs) - k + 1])])])
        if m == "split_once":
            return NONE if len(xs) < 2 else some(mk("t", (xs[0], join(xs[1:]))))
        if m == "rsplit_once":
            return NONE if len(xs) < 2 else some(mk("t", (join(xs[:-1]), xs[-1])))
        if m == "contains":
            return K(1 if len(xs) > 1 else 0)
        if m == "matches":
            return mkit(E, c, [("one", S(SEP))] * (len(xs) - 1))
        return None

    def closed(self, E, v):
        return False


def adt(P, R, n):
    a = q.adt(P, n, "astro_run")
    R.need(a, n)
    return a


def one(P, R, ty, m, args):
    r = calls_one(P, R, ty, m, args, cls=Text)
    if r is None:
        return None
    if len(r.exits) != 1:
        R.violation("outcomes:%s::%s" % (ty, m), "%s::%s has %d outcomes" % (ty, m, len(r.exits)))
        return None
    return r.exits[0]


def ids(P, R):
    w, j, n = Y(mk("arg", "workflow")), Y(mk("arg", "job")), Y(mk("arg", "number"))
    made = {}
    for ty, parts in (("WorkflowId", [w]), ("JobId", [w, j]), ("StepId", [w, j, n])):
        if adt(P, R, ty) is None:
            return
        x = one(P, R, ty, "new", parts)
        if x is None:
            return
        made[ty] = x.v
    want = {
        ("WorkflowId", "inner"): w, ("JobId", "workflow_id"): made["WorkflowId"], ("JobId", "job_key"): j, ("StepId", "workflow_id"): made["WorkflowId"],
        ("StepId", "job_id"): made["JobId"], ("StepId", "job_key"): j, ("StepId", "step_number"): n,
    }
    for (ty, m), v in sorted(want.items()):
        x = one(P, R, ty, m, [made[ty]])
        if x is None:
            return
        R.ob("part")
        if x.v is not v:
            R.violation("part:%s::%s" % (ty, m), "%s of the %s made of workflow, job and number is %s" % (m, ty, show(x.v)), path=x.path)
    parts = {"WorkflowId": [w], "JobId": [w, j], "StepId": [w, j, Y(mk("pure", "display", (n,)))]}
    for ty in made:
        name = adt(P, R, ty)["name"]
        m = P.impls.get(("core::fmt::Display", name))
        b = P.bodies.get(m["fmt"]) if m else None
        if not R.need(b, "Display of " + ty):
            return
        r = Text(name="fmt")
        R.run(P, r, b, args=[made[ty], Y(mk("arg", "f"))], auto=())
        where = "%s:%s" % (b.file, b.line)
        for x in r.exits:
            if x.v.k == "a" and x.v.a[1] == 1:
                continue
            R.ob("text")
            t = strcat(list(x.ev))
            if t is not join(parts[ty]):
                R.violation("text:" + ty, "the text of a %s is %s" % (ty, show(t)), where, x.path)
                return
        tries = [b for n, bs in P.byname.items() if n.endswith(TRY) for b in bs if b.selfty and b.selfty.endswith("::" + ty)]
        if not R.need(tries, "reading a %s from text" % ty):
            return
        for b in tries:
            where = "%s:%s" % (b.file, b.line)
            k0 = len(parts[ty])
            # what an id was written as is read as that id
            texts = [(join(parts[ty]), made[ty], "the text of a %s" % ty), (S(""), None, "no text")]
            # any text, by the number of its parts
            for k in range(1, 7):
                ps = [Y(mk("arg", "part%d" % i)) for i in range(k)]
                v = False
                if ty == "WorkflowId":
                    v = "any"
                elif k == k0:
                    v = mk("a", name, 0, tuple(ps[:2] + ([Y(mk("pure", "parsed", (ps[2],)))] if k0 == 3 else [])))
                texts.append((join(ps), v, "a text of %d parts" % k))
            for t, v, what in texts:
                r = Text(name="parse")
                R.run(P, r, b, args=[t], auto=())
                for p in r.panics:
                    R.violation("panic:" + ty, "reading a %s from %s can panic: %s" % (ty, what, p[0]), where, p[1])
                for x in r.exits:
                    R.ob("read")
                    good = x.v.k == "a" and x.v.a[1] == 0
                    if v is None or v is False:
                        if good:
                            R.violation("accepted:" + ty, "%s is read as the %s %s" % (what, ty, show(x.v)), where, x.path)
                        continue
                    if not good:
                        # only for an empty part, or one that is no number
                        why = [l for l, f in x.facts.items() if l.k == "pure" and (l.a[0] == "number" and f == ("=", 0) or l.a[0] in ("len", "empty") and (f == ("=", 0) if l.a[0] == "len" else f == ("=", 1)))]
                        if not why:
                            R.violation("refused:" + ty, "%s is not read as a %s" % (what, ty), where, x.path)
                        continue
                    got = x.v.a[2][0]
                    if v == "any":
                        v = mk("a", name, 0, (t,))
                    if not same(got, v, n):
                        R.violation("read:" + ty, "%s is read as the %s %s" % (what, ty, show(got)), where, x.path)
                if not r.exits:
                    R.violation("never:" + ty, "%s is never read" % what, where)
    # equality
    for ty in made:
        name = adt(P, R, ty)["name"]
        m = P.impls.get(("core::cmp::PartialEq", name))
        b = P.bodies.get(m["eq"]) if m else None
        if not R.need(b, "equality of " + ty):
            return
        a1, a2 = [mk("a", name, 0, tuple(Y(mk("arg", "%s%d" % (s, i))) for i in range(len(parts[ty])))) for s in "ab"]
        r = Text(name="eq")
        R.run(P, r, b, args=[a1, a2], auto=())
        where = "%s:%s" % (b.file, b.line)
        for x in r.exits:
            R.ob("equal")
            eqs = {}
            for l, f in x.facts.items():
                if l.k == "pure" and l.a[0] == "eq" and f[0] == "=":
                    ls = q.labels(l)
                    for i in range(len(parts[ty])):
                        if mk("arg", "a%d" % i) in ls and mk("arg", "b%d" % i) in ls:
                            eqs[i] = f[1]
            if x.v.k == "k":
                if x.v.a[0] and any(eqs.get(i) != 1 for i in range(len(parts[ty]))):
                    R.violation("eq:" + ty, "two %ss that differ in a part are equal" % ty, where, x.path)
                if not x.v.a[0] and 0 not in eqs.values():
                    R.violation("eq:" + ty, "two %ss with the same parts are not equal" % ty, where, x.path)
                continue
            # the answer is the last comparison
            ls = q.labels(x.v)
            left = [i for i in range(len(parts[ty])) if eqs.get(i) != 1]
            if len(left) != 1 or not (mk("arg", "a%d" % left[0]) in ls and mk("arg", "b%d" % left[0]) in ls) or not (x.v.k == "y" and x.v.a[0].k == "pure" and x.v.a[0].a[0] == "eq"):
                R.violation("eq:" + ty, "the equality of two %ss is %s" % (ty, show(x.v)), where, x.path)


def same(a, b, n):
    if a is b:
        return True
    return a.k == "a" and b.k == "a" and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]) and all(x is y for x, y in zip(a.a[2], b.a[2]))
