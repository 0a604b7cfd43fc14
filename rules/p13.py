"""P13: a plugin built from callbacks calls exactly the callback registered for the hook, with the event, and reports its error."""
from ar import q
from ar.summ import Summary
from ar.vals import *

RULE = ("Composition of the exact value summaries of the plugin builder's registration methods (in both orders, and over earlier registrations), of build and of every hook of the built plugin: "
        "each hook calls the callback registered under its own name and no other, with its own argument, and returns what the callback returned.")
ASSUME = ["calling a stored callback runs that callback"]
PLUGIN = "astro_run::plugins::Plugin"


def one(P, R, b, args, what, **kw):
    rule = Summary(name=what, **kw)
    R.run(P, rule, b, args=args, auto=())
    return rule


def run(P, R):
    hooks = [m for m in P.traits.get(PLUGIN, {}) if m.startswith("on_")]
    if len(hooks) < 10:
        R.violation("hooks", "the Plugin trait has %d hooks, expected at least 10" % len(hooks))
    ent = q.method(P, "astro_run", "AstroRunPlugin", "builder")
    if not R.need(ent, "AstroRunPlugin::builder"):
        return
    name = Y(mk("arg", "name"))
    cb = {h: Y(mk("arg", "callback:" + h)) for h in hooks}
    old = {h: Y(mk("arg", "earlier:" + h)) for h in hooks}
    for order in (hooks, list(reversed(hooks)), hooks + hooks, None):
        r = one(P, R, ent[0], [name], "builder")
        if len(r.exits) != 1:
            R.violation("builder", "AstroRunPlugin::builder has %d outcomes" % len(r.exits))
            return
        v = r.exits[0].v
        for n, h in enumerate(order or ()):
            bs = q.method(P, "astro_run", "PluginBuilder", h)
            if not R.need(bs, "PluginBuilder::" + h):
                return
            r = one(P, R, bs[0], [v, cb[h] if h not in order[n + 1:] else old[h]], h)
            if len(r.exits) != 1 or r.panics:
                R.violation("register:" + h, "registering %s has %d outcomes" % (h, len(r.exits)))
                return
            v = r.exits[0].v
            R.ob("registered")
        bs = q.method(P, "astro_run", "PluginBuilder", "build")
        if not R.need(bs, "PluginBuilder::build"):
            return
        r = one(P, R, bs[0], [v], "build")
        if len(r.exits) != 1 or r.panics:
            R.violation("build", "building a plugin has %d outcomes" % len(r.exits))
            return
        pl = r.exits[0].v
        nm = q.impl_of(P, "Plugin", "AstroRunPlugin", "name")
        if R.need(nm, "Plugin::name for AstroRunPlugin"):
            r = one(P, R, nm[0], [pl], "name")
            if [x.v for x in r.exits] != [name]:
                R.violation("name", "the built plugin's name is %s" % [show(x.v) for x in r.exits])
        for h in hooks:
            bs = q.impl_of(P, "Plugin", "AstroRunPlugin", h)
            if not bs:
                R.violation("unimplemented:" + h, "plugins built from callbacks do not implement %s, so a registered callback would never be called" % h)
                continue
            ev = Y(mk("arg", "event"))
            r = Summary(name=h)
            R.run(P, r, bs[0], args=[pl, ev], auto=(), is_async=True)
            for w, p in r.panics:
                R.violation("panic:" + h, "%s of a built plugin can panic: %s" % (h, w), path=p)
            judge(R, h, r.exits, cb[h] if order else None, ev)
    R.floor(None, "registered", 4 * len(hooks))
    R.floor(None, "callback-called", 3 * len(hooks))
    R.floor(None, "default", len(hooks))


def judge(R, h, exits, cb, ev):
    where = None
    if not exits:
        R.violation("noexit:" + h, "%s of a built plugin never returns" % h)
    for x in exits:
        calls = x.calls("call")
        if cb is None:
            want = ok(ev) if h == "on_before_run_step" else ok(NONE) if h == "on_resolve_dynamic_action" else ok(UNIT)
            R.ob("default")
            if calls or x.v is not want:
                R.violation("default:" + h, "%s without a registered callback returns %s" % (h, show(x.v)), where, x.path)
            continue
        if len(calls) != 1:
            R.violation("calls:" + h, "%s calls %d callbacks on one path" % (h, len(calls)), where, x.path)
            continue
        tag, a, l = calls[0]
        R.ob("callback-called")
        if a[0] is not cb or len(a) < 2 or ev not in (a[1], a[1].a[0][0] if a[1].k == "t" and a[1].a[0] else None):
            R.violation("other:" + h, "%s calls %s with %s" % (h, show(a[0]), ", ".join(show(y) for y in a[1:])), where, x.path)
            continue
        res = Y(l)
        good = x.v is res
        if not good and x.v.k == "a":
            i = x.v.a[1]
            d = x.known(mk("discr", l))
            pv = x.v.a[2][0]
            okp = Y(fld(l, 0, "Ok.0"))
            good = d == i and (pv is Y(fld(l, 0, "Err.0")) if i == 1 else pv is okp or pv is UNIT and h not in ("on_before_run_step", "on_resolve_dynamic_action"))
        if not good:
            R.violation("result:" + h, "%s returns %s whatever its callback returned" % (h, show(x.v)), where, x.path)
