"""P12: every lifecycle event reaches every plugin, in registration order, and then the runner; errors stay local."""
from ar import q
from ar.rule import Rule
from ar.vals import *
from . import wf

RULE = ("Typestate of Workflow::run, Job::run and ExecutionContext::run (each runner hook is preceded by the same plugin hook with the same event, both of "
        "the run's own context) and of every hook of the plugin driver: one call per plugin, in order, awaited, with the driver's argument, whatever "
        "the earlier plugins returned.")
ASSUME = wf.ASSUME
PLUGIN = "astro_run::plugins::Plugin"


class Fan(Rule):
    """auto = (current plugin, times called, awaited, exhausted, value handed on, last outcome)"""
    coarse = True
    trait = PLUGIN

    def __init__(self, hook, vec, kind):
        super().__init__()
        self.hook = hook
        self.vec = vec
        self.kind = kind

    def set(self, st, **kw):
        n = ("cur", "n", "lab", "done", "val", "res")
        a = list(st.auto)
        for k, v in kw.items():
            a[n.index(k)] = v
        st.auto = tuple(a)

    def get(self, st, k):
        return st.auto[("cur", "n", "lab", "done", "val", "res").index(k)]

    def on_iter(self, E, st, c, L, e):
        if wf.elem_src(L) is not self.vec:
            return True
        self.close(st, c)
        self.set(st, cur=wf.elem_label(L, e), n=0, lab=None, done=e is None)
        return True

    def close(self, st, c=None):
        if self.get(st, "cur") is not None:
            if self.get(st, "n") != 1 or self.get(st, "lab") is not None:
                self.flag(st, "missed:" + self.hook, "%s passes on to the next plugin without having called (and awaited) this one exactly once" % self.hook, c)
            self.ob("plugin-called:" + self.hook)

    def on_call(self, E, st, c):
        if c.name.startswith(self.trait + "::on_"):
            m = c.name.rsplit("::", 1)[1]
            t = E.full(st, c.args[0])
            cur = self.get(st, "cur")
            if m != self.hook:
                self.flag(st, "hook:%s" % self.hook, "%s calls the plugins' %s" % (self.hook, m), c)
            if cur is None or not (t is Y(cur) or t.k == "y" and q.mentions(t, cur)):
                self.flag(st, "target:" + self.hook, "%s calls %s, not the plugin whose turn it is" % (self.hook, show(t)), c)
            v = E.deep(st, c.args[1])
            if v is not self.get(st, "val"):
                self.flag(st, "arg:" + self.hook, "%s gives a plugin %s instead of %s" % (self.hook, show(v), show(self.get(st, "val"))), c)
            if self.get(st, "res") == "found":
                self.flag(st, "after:" + self.hook, "%s asks a further plugin although one has answered" % self.hook, c)
            return "opaque"
        if c.name == self.trait + "::name":
            return Y(mk("pure", "name", (E.full(st, c.args[0]),)))
        return None

    def is_stop(self, c):
        return True

    def on_opaque(self, E, st, c, l):
        if c.name.startswith(self.trait + "::on_"):
            self.set(st, n=min(self.get(st, "n") + 1, 2), lab=l)

    def on_await(self, E, st, l, c):
        if l is not self.get(st, "lab"):
            return None
        self.set(st, lab=None)
        o = mk("out", l)
        bad = st.copy()
        self.set(bad, res=None)
        r = [(bad, err(Y(fld(o, 0, "Err.0"))))]
        x = Y(fld(o, 0, "Ok.0"))
        if self.kind == "chain":
            self.set(st, val=x, res=None)
            r.append((st, ok(x)))
        elif self.kind == "first":
            s2 = st.copy()
            a = Y(fld(x.a[0], 0, "Some.0"))
            self.set(s2, res="found")
            r.append((s2, ok(some(a))))
            self.set(st, res=None)
            r.append((st, ok(NONE)))
        else:
            r.append((st, ok(UNIT)))
        return r

    def on_panic(self, E, st, what, line):
        self.flag(st, "panic:" + self.hook, "%s can panic: %s" % (self.hook, what))

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        if self.kind == "first" and self.get(st, "res") == "found":
            self.ob("answered")
            a = v.a[2][0] if v.k == "a" and v.a[1] == 1 else v
            # only one plugin's answer can have been an action on this path
            x = a.a[0] if a.k == "y" else None
            while x is not None and x.k == "f":
                x = x.a[0]
            if x is None or x is a.a[0] or not (x.k in ("out", "old") and q.has_call(a, "on_resolve_dynamic_action")):
                self.flag(st, "answer", "the action a plugin resolved is not the one returned: %s" % show(v))
            return
        self.close(st)
        if not self.get(st, "done"):
            self.flag(st, "early:" + self.hook, "%s returns before every plugin was called" % self.hook)
        self.ob("all-plugins:" + self.hook)
        if self.kind == "chain" and v is not self.get(st, "val"):
            self.flag(st, "step", "the step after the before-run hooks is %s, not what they produced (%s)" % (show(v), show(self.get(st, "val"))))
        if self.kind == "first" and v is not NONE:
            self.flag(st, "resolved", "%s is returned although no plugin resolved the action" % show(v))


def run(P, R):
    wf.levels(P, R, ["job", "workflow", "step"], {"fan-out:" + h: 1 for h in (
        "on_run_workflow", "on_run_job", "on_run_step", "on_state_change", "on_log", "on_step_completed", "on_job_completed", "on_workflow_completed")})
    adt = q.adt(P, "PluginDriver", "astro_run")
    if not R.need(adt, "PluginDriver"):
        return
    vec = [f[0] for f in adt["variants"][0]["fields"] if "dyn" in f[1] and "Plugin" in f[1]]
    if not R.need(vec, "the plugins of the plugin driver"):
        return
    me = mk("arg", "self")
    v = q.field(me, adt, vec[0])
    hooks = [m for m in P.traits.get(PLUGIN, {}) if m.startswith("on_")]
    R.note("plugin_hooks", hooks)
    if len(hooks) < 10:
        R.violation("hooks", "the Plugin trait has %d hooks, expected at least 10" % len(hooks))
    for h in hooks:
        bs = q.method(P, "astro_run", "PluginDriver", h)
        if not R.need(bs, "PluginDriver::" + h):
            continue
        arg = Y(mk("arg", "event"))
        rule = Fan(h, v, {"on_before_run_step": "chain", "on_resolve_dynamic_action": "first"}.get(h, "all"))
        R.run(P, rule, bs[0], args=[Y(me), arg], is_async=True, auto=(None, 0, None, False, arg, None))
        if rule.kind == "first":
            R.floor(rule, "answered", 1)
        R.floor(rule, "plugin-called:" + h, 1)
        R.floor(rule, "all-plugins:" + h, 1)
