"""P14: an AstroRun and its contexts consist of exactly what was given to their builders."""
from ar import q
from ar.summ import Summary
from ar.vals import *
from .common import *

RULE = ("Composition of exact value summaries (abstract interpretation over MIR): AstroRun::builder, each registration method in several orders, build, execution_context, each method of the "
        "context builder in both orders, build; every part of the resulting context must be the very value given, in registration order, and nothing may leak from one context into another.")
ASSUME = ["Box, Arc and Mutex constructors hold the value they are given"]


def A(n):
    return Y(mk("arg", n))


def run(P, R):
    clones(P, R)
    r, p1, p2, n, a = A("runner"), A("plugin 1"), A("plugin 2"), A("action name"), A("action")
    B = "AstroRunBuilder"
    runner, plug1, plug2 = (B, "runner", [r]), (B, "plugin", [p1]), (B, "plugin", [p2])
    act, app, tok = (B, "action", [n, a]), (B, "github_app", [A("app id"), A("key")]), (B, "github_personal_token", [A("token")])
    adts = {x: q.adt(P, x, "astro_run") for x in ("AstroRun", "ExecutionContext", "GithubAuthorization", "ConditionMatcher")}
    for k, v in adts.items():
        if not R.need(v, k):
            return
    gh = adts["GithubAuthorization"]["name"]
    vi = {v["name"]: i for i, v in enumerate(adts["GithubAuthorization"]["variants"])}
    vapp = lambda v: auth(v, "GithubApp", ["app id", "key"])
    vtok = lambda v: auth(v, "PersonalAccessToken", ["token"])
    vno = lambda v: v is NONE

    def auth(v, variant, parts):
        if v.k != "a" or v.a[1] != 1 or v.a[2][0].k != "a" or v.a[2][0].a[0] != gh or v.a[2][0].a[1] != vi[variant]:
            return False
        return [string(x) for x in v.a[2][0].a[2]] == [A(p) for p in parts]

    scen = [("usual order", [runner, plug1, plug2, act, app], [p1, p2], True, vapp),
            ("other order", [app, act, plug2, plug1, runner], [p2, p1], True, vapp),
            ("no authorization", [plug1, runner, plug2], [p1, p2], False, vno),
            ("token", [runner, tok, act], [], True, vtok),
            ("token replaces app", [app, tok, runner], [], False, vtok),
            ("app replaces token", [tok, runner, plug1, app], [p1], False, vapp)]
    for what, steps, plugins, acts, goodauth in scen:
        b = chain(P, R, what, None, [("AstroRun", "builder", [])] + steps)
        if b is None:
            continue
        ar = chain(P, R, what, b, [(B, "build", [])])
        if ar is None:
            continue
        am = part(P, ar, "HashMap<alloc::string::String") or part(P, ar, "HashMap<std::string::String") or part(P, ar, "dyn astro_run::actions::Action")
        ents = [e for m in am for e in mapents(m)]
        want = [(n, a)] if acts else []
        R.ob("actions")
        if not am or [(string(k), v) for k, v in ents] != want:
            R.violation("actions:" + what, "with the builder calls in %s the actions are %s" % (what, [show(m) for m in am]))
        cb = chain(P, R, what, ar, [("AstroRun", "execution_context", [])])
        if cb is None:
            continue
        ev, pl = A("event"), A("payload")
        X = "ExecutionContextBuilder"
        for cw, csteps, hasev, haspl in (("plain", [], False, False), ("event", [(X, "event", [ev])], True, False),
                                         ("payload", [(X, "payload", [pl])], False, True),
                                         ("event and payload", [(X, "event", [ev]), (X, "payload", [pl])], True, True),
                                         ("payload and event", [(X, "payload", [pl]), (X, "event", [ev])], True, True),
                                         ("again", [(X, "event", [A("earlier event")]), (X, "payload", [A("earlier payload")]), (X, "payload", [pl]), (X, "event", [ev])], True, True)):
            c = chain(P, R, what + "/" + cw, cb, csteps + [(X, "build", [])])
            if c is None:
                continue
            judge(P, R, "%s/%s" % (what, cw), c, r, plugins, goodauth, ev if hasev else None, pl if haspl else None)
    # a second context of the same instance gets the same parts (symbolic instance)
    me = mk("arg", "self")
    x = calls_one(P, R, "AstroRun", "execution_context", [Y(me)])
    X = "ExecutionContextBuilder"
    ev, pl = (X, "event", [A("event")]), (X, "payload", [A("payload")])
    for e in x.exits if x else ():
        for cw, csteps in (("plain", []), ("event", [ev]), ("payload", [pl]), ("event and payload", [ev, pl])):
            y = chain(P, R, "instance/" + cw, e.v, csteps + [(X, "build", [])])
            if y is None:
                continue
            R.ob("context-of-instance")
            for frag, want in (("Runner", "runner"), ("PluginDriver", "plugin driver"), ("SignalManager", "signal manager")):
                f = [q.field(me, adts["AstroRun"], f[0]) for f in adts["AstroRun"]["variants"][0]["fields"] if frag in f[1]]
                have = part(P, y, frag)
                if not f or len(have) != 1 or not same_as(have[0], f[0]):
                    R.violation("instance:" + want, "the %s contexts of an AstroRun get the %s %s" % (cw, want, [show(h) for h in have]))
    # the action last given under a name is the one that counts
    b = chain(P, R, "same name", None, [("AstroRun", "builder", []), runner, (B, "action", [n, A("earlier action")]), act])
    ar = chain(P, R, "same name", b, [(B, "build", [])]) if b is not None else None
    if ar is not None:
        am = part(P, ar, "HashMap<alloc::string::String") or part(P, ar, "HashMap<std::string::String") or part(P, ar, "dyn astro_run::actions::Action")
        ents = [(string(k), v) for m in am for k, v in mapents(m)]
        R.ob("action-again")
        if not [e for e in ents if e[1] is a] or [e for e in ents if e[1] is not a and e[1] is not A("earlier action")]:
            R.violation("actions:same name", "an action registered under a name already in use leaves the actions %s" % [show(m) for m in am])
    copy(P, R)
    R.floor(None, "context", 30)
    R.floor(None, "action-again", 1)
    R.floor(None, "context-of-instance", 4)
    R.floor(None, "payload-copy", 1)


def string(v):
    """the source of a String made from a value (Into/From/to_string of a string are the identity)"""
    while v.k == "y" and v.a[0].k == "pure" and len(v.a[0].a[1]) == 1 and (
            v.a[0].a[0].startswith("into:") and v.a[0].a[0].endswith("String") or v.a[0].a[0] in ("to_string", "display")):
        v = v.a[0].a[1][0]
    return v


def mapents(v):
    return list(v.a[1]) if v.k == "hm" and v.a[0] is None else [(v, v)]


def judge(P, R, what, c, r, plugins, goodauth, ev, pl):
    R.ob("context")
    g = lambda frag: part(P, c, frag)
    if g("dyn astro_run::runner::Runner") != [r] and g("Runner") != [r]:
        R.violation("runner:" + what, "the context's runner is %s" % [show(x) for x in g("Runner")])
    pv = [x for d in g("PluginDriver") for x in part(P, d, "Plugin")] or g("dyn astro_run::plugins::Plugin")
    if pv != [seq(tuple(("one", x) for x in plugins))]:
        R.violation("plugins:" + what, "the context's plugins are %s, expected %s" % ([show(x) for x in pv], [show(x) for x in plugins]))
    au = g("GithubAuthorization")
    if len(au) != 1 or not goodauth(au[0]):
        R.violation("auth:" + what, "the context's authorization is %s" % [show(x) for x in au])
    e = g("TriggerEvent")
    if e != [some(ev) if ev is not None else NONE]:
        R.violation("event:" + what, "the context's trigger event is %s" % [show(x) for x in e])
    p = [x for x in g("ContextPayload")]
    okp = len(p) == 1 and (p[0] is NONE if pl is None else p[0].k == "a" and p[0].a[1] == 1 and
                           (p[0].a[2][0] is pl or p[0].a[2][0].k == "a" and p[0].a[2][0].a[2] == (pl,)))
    if not okp:
        R.violation("payload:" + what, "the context's payload is %s" % [show(x) for x in p])
    s = g("SignalManager")
    if len(s) != 1 or q.labels(s[0]):
        R.violation("signals:" + what, "a new context already knows the signals %s" % [show(x) for x in s])


def copy(P, R):
    """the copy of a payload is the payload written and read back"""
    b = q.impl_of(P, "Clone", "ContextPayload", "clone")
    if not R.need(b, "Clone for ContextPayload"):
        return
    if b[0].exp:
        R.ob("payload-copy")
        return
    me = mk("arg", "self")
    w = lambda E, st, c: c.name.rsplit("::", 1)[1] if (c.name or "").startswith("serde_json::") else None
    r = Summary(watch=w, name="clone")
    R.run(P, r, b[0], args=[Y(me)], auto=())
    for x in r.exits:
        cs = x.calls()
        names = [c[0] for c in cs]
        good = len(names) == 2 and (names[0], names[1]) in (("to_string", "from_str"), ("to_vec", "from_slice"), ("to_value", "from_value"))
        if good:
            src, mid = cs[0][1][0], cs[1][1][0]
            good = src.k == "y" and src.a[0].k == "f" and src.a[0].a[0] is me and mid.k == "y" and mid.a[0].k == "f" and mid.a[0].a[0] is cs[0][2] and \
                q.mentions(x.v, cs[1][2])
        R.ob("payload-copy")
        if not good:
            R.violation("payload-copy", "the copy of a payload is %s (from %s)" % (show(x.v), names), "%s:%s" % (b[0].file, b[0].line), x.path)
