"""P49: the small values that users decide by - states, logs, variables, errors - say exactly what they stand for."""
from ar import q
from ar.natives import strcat
from ar.summ import Summary
from ar.vals import *

RULE = ("Exact value summaries (abstract interpretation over MIR) of the predicates, constructors, conversions, texts and equality of WorkflowState, WorkflowLogType, Log, WorkflowLog, EnvironmentVariable, Signal, GithubAuthorization and Error, "
        "evaluated for every variant (every pair of variants for equality) with arbitrary contents.")
ASSUME = ["ToString of a message is its text"]
C = "astro_run"
TERMINAL = ("Succeeded", "Failed", "Cancelled", "Skipped")


def A(n):
    return Y(mk("arg", n))


class Val(Summary):
    def start(self):
        return ()

    def is_stop(self, c):
        return False

    def on_fmt(self, E, st, s):
        st.auto = st.auto + (s,)

    def on_call(self, E, st, c):
        n = c.name or ""
        if n.endswith("::as_display") or n in ("core::convert::Into::into", "core::convert::From::from", "alloc::string::ToString::to_string", "alloc::borrow::ToOwned::to_owned") and \
                c.id not in E.P.bodies and E.full(st, c.args[0]).k in ("y", "s"):
            return E.full(st, c.args[0])
        if n.endswith("io::error::Error::kind"):
            return Y(mk("pure", "kind", (E.deep(st, E.full(st, c.args[0])),)))
        return None


def val(a, vs, name, args=None):
    i = vs[name]
    fs = a["variants"][i]["fields"]
    return mk("a", a["name"], i, tuple(args if args is not None else [A(name + str(k)) for k in range(len(fs))]))


def undis(v):
    """the text of a value: its own, or its display"""
    while v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "display":
        v = v.a[0].a[1][0]
    return v


def run(P, R):
    ad, vs = {}, {}
    for n in ("WorkflowState", "WorkflowLogType", "Log", "WorkflowLog", "EnvironmentVariable", "Signal", "GithubAuthorization", "Error", "RunResult"):
        a = q.adt(P, n, C)
        if not R.need(a, n):
            return
        ad[n] = a
        vs[n] = {v["name"]: i for i, v in enumerate(a["variants"])}

    def go(what, b, args):
        r = Val(name=what)
        R.run(P, r, b, args=args, auto=())
        for w, p in r.panics:
            R.violation("panic:" + what, "%s can panic: %s" % (what, w), "%s:%s" % (b.file, b.line), p)
        if not r.exits:
            R.violation("never:" + what, "%s never returns" % what, "%s:%s" % (b.file, b.line))
        return r.exits

    def meth(ty, m):
        bs = q.method(P, C, ty, m)
        return bs[0] if R.need(bs, "%s::%s" % (ty, m)) else None

    def imp(tr, ty, m):
        bs = [b for n, x in P.byname.items() if n.endswith("::%s::%s" % (tr, m)) for b in x if b.selfty and b.selfty.endswith("::" + ty) and b.crate == C]
        return bs if R.need(bs, "%s of %s" % (tr, ty)) else []

    def pred(ty, m, cases):
        b = meth(ty, m)
        for v, want in cases if b is not None else ():
            for x in go("%s::%s" % (ty, m), b, [v]):
                R.ob("predicate")
                if x.v is not K(1 if want else 0):
                    R.violation("predicate:%s::%s" % (ty, m), "%s of %s is %s" % (m, show(v), show(x.v)), "%s:%s" % (b.file, b.line), x.path)

    def text(ty, v, judge, what):
        for b in imp("Display", ty, "fmt"):
            for x in go("text of " + ty, b, [v, A("f")]):
                if x.v.k == "a" and x.v.a[1] == 1:
                    continue
                R.ob("text")
                t = strcat(list(x.ev))
                b01 = x.facts.get(mk("arg", "Boolean0"))
                if b01 in (("=", 0), ("=", 1)) and t is S(("false", "true")[b01[1]]):
                    continue
                if not judge(t):
                    R.violation("text:" + ty, "the text of %s is %s, not %s" % (show(v), show(t), what), "%s:%s" % (b.file, b.line), x.path)

    WS, LT = ad["WorkflowState"], ad["WorkflowLogType"]
    states = list(vs["WorkflowState"])
    if set(states) != set(TERMINAL) | {"Pending", "Queued", "InProgress"}:
        R.violation("states", "the states are %s" % states)
        return
    pred("WorkflowState", "is_terminal", [(val(WS, vs["WorkflowState"], s), s in TERMINAL) for s in states])
    pred("WorkflowState", "is_in_progress", [(val(WS, vs["WorkflowState"], s), s == "InProgress") for s in states])
    pred("WorkflowState", "is_queued", [(val(WS, vs["WorkflowState"], s), s == "Queued") for s in states])
    GA = ad["GithubAuthorization"]
    pred("GithubAuthorization", "is_personal_access_token", [(val(GA, vs["GithubAuthorization"], s), s == "PersonalAccessToken") for s in vs["GithubAuthorization"]])
    for s, t in (("Error", "error"), ("Log", "log")):
        v = val(LT, vs["WorkflowLogType"], s)
        text("WorkflowLogType", v, lambda x: x is S(t), "'%s'" % t)
        for ty in ("Log", "WorkflowLog"):
            fs = ad[ty]["variants"][0]["fields"]
            rec = mk("a", ad[ty]["name"], 0, tuple(v if "LogType" in f[1] else A(f[0]) for f in fs))
            pred(ty, "is_error", [(rec, s == "Error")])
    for b in imp("From", "WorkflowLogType", "from"):
        for t, s in (("error", "Error"), ("log", "Log"), (None, "Log")):
            for x in go("WorkflowLogType::from", b, [S(t) if t else S("something else")]):
                R.ob("from")
                if x.v is not val(LT, vs["WorkflowLogType"], s):
                    R.violation("from:WorkflowLogType", "the text %s is read as the log type %s" % (t or "of nothing", show(x.v)), "%s:%s" % (b.file, b.line), x.path)
    for m, s in (("log", "Log"), ("error", "Error")):
        b = meth("Log", m)
        fs = ad["Log"]["variants"][0]["fields"]
        for x in go("Log::" + m, b, [A("message")]) if b is not None else ():
            R.ob("made")
            want = mk("a", ad["Log"]["name"], 0, tuple(val(LT, vs["WorkflowLogType"], s) if "LogType" in f[1] else A("message") for f in fs))
            if x.v is not want:
                R.violation("made:Log::" + m, "Log::%s makes %s" % (m, show(x.v)), "%s:%s" % (b.file, b.line), x.path)
    for s, t in (("Cancel", "cancel"), ("Timeout", "timeout")):
        text("Signal", val(ad["Signal"], vs["Signal"], s), lambda x: x is S(t), "'%s'" % t)
    # variables
    EV, ve = ad["EnvironmentVariable"], vs["EnvironmentVariable"]
    for s in ve:
        text("EnvironmentVariable", val(EV, ve, s), lambda x: undis(x) is A(s + "0"), "its value")
    kinds = {"f64": "Number", "bool": "Boolean", "str": "String"}
    for b in imp("From", "EnvironmentVariable", "from"):
        t = b.tys[b.locals[1][0]]["s"]
        k = next((v for f, v in kinds.items() if f in t), "String" if "String" in t else None)
        for x in go("EnvironmentVariable::from", b, [A("value")]):
            R.ob("from")
            if k and x.v is not val(EV, ve, k, [A("value")]):
                R.violation("from:EnvironmentVariable:" + t, "a variable made from a %s is %s" % (t, show(x.v)), "%s:%s" % (b.file, b.line), x.path)
    # errors
    ER, vr = ad["Error"], vs["Error"]
    want = {"workflow_config_error": "WorkflowConfigError", "internal_runtime_error": "InternalRuntimeError", "io_error": "IOError", "failed": "Failed",
            "unsupported_feature": "UnsupportedFeature", "init_error": "InitError", "error": "Error"}
    for m, n in sorted(want.items()):
        b = meth("Error", m)
        if b is None or n not in vr:
            continue
        for x in go("Error::" + m, b, [A("message")]):
            R.ob("made")
            if x.v is not val(ER, vr, n, [A("message")]):
                R.violation("made:Error::" + m, "Error::%s makes %s" % (m, show(x.v)), "%s:%s" % (b.file, b.line), x.path)
    prefixes = {}

    def judge(n):
        def f(t):
            ps = list(t.a[0]) if t.k == "fmt" else [t]
            prefixes.setdefault(n, ps[0])
            arg = [p for p in ps if p.k != "s"]
            return len(arg) == 1 and mk("arg", n + "0") in q.labels(arg[0]) and ps[-1] is arg[0]
        return f
    for n in vr:
        text("Error", val(ER, vr, n), judge(n), "a prefix and the message")
    for n, p in prefixes.items():
        if any(o is p for k, o in prefixes.items() if k != n):
            R.violation("text:prefix", "errors of kind %s read like those of another kind" % n)
    for b in imp("PartialEq", "Error", "eq"):
        for n in vr:
            for m in vr:
                for x in go("equality of errors", b, [val(ER, vr, n, [A("a")]), val(ER, vr, m, [A("b")])]):
                    R.ob("equal")
                    ok_ = x.v is K(0) if n != m else None
                    if n == m:
                        fs = {k: f[1] for k, f in x.facts.items() if k.k == "pure" and k.a[0] == "eq" and f[0] == "="}
                        both = lambda l: mk("arg", "a") in q.labels(l) and mk("arg", "b") in q.labels(l)
                        if x.v.k == "k":
                            ok_ = any(both(l) and v == x.v.a[0] for l, v in fs.items())
                        else:
                            ok_ = x.v.k == "y" and x.v.a[0].k == "pure" and x.v.a[0].a[0] == "eq" and both(x.v.a[0])
                    if not ok_:
                        R.violation("eq:Error", "the errors %s and %s compare as %s" % (n, m, show(x.v)), "%s:%s" % (b.file, b.line), x.path)
    for n, k in (("predicate", 25), ("text", 14), ("made", 9), ("from", 6), ("equal", 49)):
        R.floor(None, n, k)
