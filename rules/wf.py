"""Shared typestate automata for Workflow::run, Job::run and ExecutionContext::run."""
from ar import q
from ar import natives as N
from ar.rule import Rule
from ar.vals import *

ASSUME = ["Clone on the data types of the crate yields an equal value (derived impls)",
          "tokio::spawn runs the task it is given; mpsc delivers each sent message once",
          "HashMap/Vec/Option/iterator combinators behave as the reference models in models/"]
RUNNER = "astro_run::runner::Runner::"


class AutoRule(Rule):
    """auto is a tuple whose positions are named by `fields`"""
    coarse = True
    fields = ()
    init = ()

    def __init__(self, props):
        super().__init__()
        self.props = props
        self.by = {}

    def start(self):
        return tuple(self.init)

    def g(self, st, n):
        return st.auto[self.fields.index(n)]

    def s(self, st, **kw):
        a = list(st.auto)
        for k, v in kw.items():
            a[self.fields.index(k)] = v
        st.auto = tuple(a)

    def bad(self, st, prop, key, msg, c=None):
        if prop in self.props:
            self.flag(st, key, msg, c)

    def did(self, prop, name):
        if prop in self.props:
            self.ob(name)


_old = {}


def stale(v):
    """v speaks about an element of an earlier iteration"""
    r = _old.get(v)
    if r is None:
        r = v.k == "old" or any(stale(x) for x in v.a if type(x) is V)
        _old[v] = r
    return r


def field_of(P, adt, l, name):
    a = P.adts[adt] if type(adt) is str else adt
    f = q.field(l, a, name)
    if f is None:
        raise KeyError("%s has no field %s" % (a["name"], name))
    return f


def elem_src(L):
    """the collection an iteration source ranges over: `for x in v` and `for i in 0..v.len()` are the same"""
    if L.k == "pure" and L.a[0] == "range" and L.a[1][0] is K(0):
        h = L.a[1][1]
        if h.k == "y" and h.a[0].k == "pure" and h.a[0].a[0] == "len" and h.a[0].a[1][0].k == "y":
            return h.a[0].a[1][0].a[0]
    return L


def elem_label(L, e):
    s = elem_src(L)
    return e if s is L or e is None else mk("idx", s, Y(e))


class WfRule(AutoRule):
    """hooks shared by the three levels"""

    def __init__(self, P, props):
        super().__init__(props)
        self.P = P
        self.logging = "P45" in props
        A = lambda n: q.adt(P, n, "astro_run")
        self.A = {n: A(n) for n in ("Workflow", "Job", "Step", "WorkflowStateEvent", "WorkflowState", "StepRunResult", "JobRunResult",
                                    "WorkflowRunResult", "RunResult", "Command", "Context", "WorkflowLog", "Log", "Signal",
                                    "RunEvent", "StepId", "JobId", "ExecutionContext")}
        # the parts of the execution context, by type
        cf = self.A["ExecutionContext"]["variants"][0]["fields"]
        one = lambda *fr: [f[0] for f in cf if all(x in f[1] for x in fr)][0]
        self.cx = {"plugins": one("PluginDriver"), "runner": one("dyn", "Runner"), "payload": one("ContextPayload"), "signals": one("SignalManager")}
        self.ctx = mk("arg", "ctx")
        self.ws = [v["name"] for v in self.A["WorkflowState"]["variants"]]

    def state(self, n):
        return mk("a", self.A["WorkflowState"]["name"], self.ws.index(n), ())

    def statename(self, v):
        if v.k == "a" and v.a[0] == self.A["WorkflowState"]["name"]:
            return self.ws[v.a[1]]
        return None

    def fo(self, adt, l, name):
        return field_of(self.P, self.A[adt], l, name)

    def get(self, adt, v, name, variant=0):
        """value of a named field of an aggregate / label"""
        a = self.A[adt]
        for i, f in enumerate(a["variants"][variant]["fields"]):
            if f[0] == name:
                return self.E.proj(None, v, ("f", i, name))
        return None

    def on_panic(self, E, st, what, line):
        v = E.unwrapped
        if v is not None and v.k == "y" and v.a[0].k == "call" and str(v.a[0].a[0]).startswith("serde_json::"):
            return  # a payload that cannot be written; see P45
        lv = type(self).__name__.replace("Rule", "").lower()
        self.bad(st, "P45", "panic:%s:%s" % (lv, what), "running a %s can panic: %s%s" % (lv, what, " of " + show(v)[:80] if v is not None else ""))

    def on_index(self, E, st, c, v, i):
        """an index or a range that may lie outside what it is taken of (a text is cut only at a character boundary)"""
        if "P45" not in self.props:
            return
        if i.k == "a":
            ends = [x for x in i.a[2] if x.k in ("k", "y")]
            if all(x is K(0) or x is E.length(st, v) for x in ends) and (len(ends) < 2 or ends[0] is K(0)):
                return
        elif all(ok for _, ok in E.fork_bool(st.copy(), E.lt(st, i, E.length(st, v)))):
            return
        lv = type(self).__name__.replace("Rule", "").lower()
        self.bad(st, "P45", "index:%s:%s" % (lv, show(i)[:60]), "running a %s can panic: %s is cut or indexed at %s, which may be out of its bounds" % (lv, show(v)[:60], show(i)[:60]), c)

    # --- calls
    def on_call(self, E, st, c):
        n = c.name or ""
        if n.startswith(RUNNER + "on_"):
            return "opaque"
        if "::PluginDriver::on_" in n and n.startswith("astro_run::"):
            return "opaque"
        if n == "chrono::offset::utc::Utc::now":
            return None
        b = E.P.bodies.get(c.id)
        if b is not None and b.crate == "astro_run" and not n.endswith("::should_skip") and c.argtys:
            for a, t in zip(c.args, c.argtys):
                s = c.body.tys[t]["s"]
                if s.startswith("&") and s.endswith("types::condition::Condition"):
                    if (b.id + "::{closure#0}") in E.P.bodies and E.P.bodies[b.id + "::{closure#0}"].coroutine:
                        return "opaque"
                    v = E.deep(st, a)
                    return N.out(E, c, self.fork_match(E, st, v))
        return self.call(E, st, c)

    def call(self, E, st, c):
        return None

    def is_stop(self, c):
        return True

    def fork_match(self, E, st, cond):
        r = []
        for b in (TRUE, FALSE):
            s2 = st.copy()
            m = self.g(s2, "match")
            self.s(s2, match=tuple(x for x in m if x[0] is not cond and not stale(x[0])) + ((cond, b.a[0]),))
            r.append((s2, b))
        return r

    def on_opaque(self, E, st, c, l):
        n = c.name or ""
        if n.startswith(RUNNER + "on_"):
            self.mine(E, st, c, "runner")
            self.s(st, pend=self.g(st, "pend") + ((l, n[len(RUNNER):], E.deep(st, c.args[1])),))
            return
        if "::PluginDriver::on_" in n and n.startswith("astro_run::"):
            self.mine(E, st, c, "plugins")
            if not n.endswith("on_before_run_step"):
                self.s(st, pend=self.g(st, "pend") + ((l, "plugins:" + n.rsplit("::", 1)[1], E.deep(st, c.args[1])),))
                return
        if n == "chrono::offset::utc::Utc::now":
            ts = self.g(st, "times")
            if l not in ts and not self.g(st, "t0"):
                self.s(st, times=ts + (l,))
            elif self.over(st):
                self.s(st, t1=tuple(x for x in self.g(st, "t1") if x is not l)[-1:] + (l,))
            return
        for a, t in zip(c.args, c.argtys or ()):
            s = c.body.tys[t]["s"]
            if s.startswith("&") and s.endswith("types::condition::Condition") and not n.endswith("::should_skip") and E.P.bodies.get(c.id):
                self.s(st, pend=self.g(st, "pend") + ((l, "match", E.deep(st, a)),))
                return
        self.opaqued(E, st, c, l)

    def opaqued(self, E, st, c, l):
        pass

    def on_await(self, E, st, l, c):
        for p in self.g(st, "pend"):
            if p[0] is l:
                self.s(st, pend=tuple(x for x in self.g(st, "pend") if x is not p))
                if p[1] == "match":
                    return self.fork_match(E, st, p[2])
                if p[1].startswith("plugins:"):
                    if self.g(st, "plug") is not None:
                        self.bad(st, "P12", "plugins-only:" + self.g(st, "plug")[0], "%s reaches the plugins but not the runner" % self.g(st, "plug")[0], c)
                    self.s(st, plug=(p[1][8:], p[2]))
                    self.plugged(E, st, p[1][8:], c)
                    return
                self.fanout(st, p[1], p[2], c)
                return self.event(E, st, p[1], p[2], c, l)
        return self.awaited(E, st, l, c)

    def awaited(self, E, st, l, c):
        return None

    def plugged(self, E, st, hook, c):
        pass

    def mine(self, E, st, c, part):
        """the call goes to this part of the run's own context"""
        t = E.full(st, c.args[0])
        f = self.fo("ExecutionContext", self.ctx, self.cx[part])
        if t.k != "y" or not q.mentions(t, f):
            self.bad(st, "P12", "other:" + part, "an event is sent to %s, not to the %s of the run's own context" % (show(t), part), c)

    def fanout(self, st, hook, v, c):
        if hook == "on_before_run_step":
            return
        p = self.g(st, "plug")
        if p is None:
            self.bad(st, "P12", "runner-only:" + hook, "%s reaches the runner without having been handled by the plugins" % hook, c)
        elif p[0] != hook:
            self.bad(st, "P12", "hook-differs:" + hook, "the plugins get %s where the runner gets %s" % (p[0], hook), c)
        elif p[1] is not v:
            self.bad(st, "P12", "event-differs:" + hook, "%s gives the plugins %s and the runner %s" % (hook, show(p[1]), show(v)), c)
        if v.k == "a" and v.a[0] == self.A["RunEvent"]["name"]:
            g = lambda n: self.get("RunEvent", v, n)
            te, pl = g("trigger_event"), g("payload")
            if not (te.k == "y" and te.a[0].k == "f" and te.a[0].a[2] == "event" and q.mentions(te, self.ctx)):
                self.bad(st, "P12", "trigger-event:" + hook, "%s carries trigger event %s, not the one of the run" % (hook, show(te)), c)
            if pl is not Y(self.fo("ExecutionContext", self.ctx, self.cx["payload"])):
                self.bad(st, "P12", "payload:" + hook, "%s carries payload %s, not the one of the run" % (hook, show(pl)), c)
        self.did("P12", "fan-out:" + hook)
        self.s(st, plug=None)

    def over(self, st):
        """may what runs have ended?"""
        return True

    def skip_known(self, E, st, on):
        """value of the `on` condition for the label of an Option<Condition> field: True run, False skip, None unknown"""
        d = E.fact(st, mk("discr", on))
        if d is None:
            d = self.onfact(st, on)
        if d == 0:
            return True
        cond = Y(fld(on, 0, "Some.0"))
        for k, v in self.g(st, "match"):
            if k is cond:
                return bool(v)
        return None

    def onfact(self, st, on):
        for k, v in self.g(st, "ons"):
            if k is on:
                return v
        return None

    def on_fact(self, E, st, l, n):
        # remember whether an `on` condition is configured even after the engine forgets
        if l.k == "discr" and l.a[0].k == "f" and l.a[0].a[2] == "on":
            o = self.g(st, "ons")
            self.s(st, ons=tuple(x for x in o if x[0] is not l.a[0] and not stale(x[0])) + ((l.a[0], n),))
        return True

    def unfired(self, st, prop, what):
        if self.g(st, "plug") is not None:
            self.bad(st, "P12", "plugins-only:" + self.g(st, "plug")[0], "%s reaches the plugins but not the runner" % self.g(st, "plug")[0])
        for p in self.g(st, "pend"):
            if p[1] != "match":
                self.bad(st, prop, "unawaited:%s:%s" % (what, p[1]), "%s builds the %s hook call without awaiting it" % (what, p[1]))

    def state_event(self, v):
        """(level, id, state name) of a WorkflowStateEvent"""
        if v.k == "a" and v.a[0] == self.A["WorkflowStateEvent"]["name"]:
            vn = self.A["WorkflowStateEvent"]["variants"][v.a[1]]
            d = dict(zip([f[0] for f in vn["fields"]], v.a[2]))
            return vn["name"].replace("StateUpdated", ""), d.get("id"), d.get("state")
        return None, None, None

    def times_ok(self, st, prop, what, started, completed):
        t0 = self.g(st, "t0")
        def now(v):
            return v.a[2][0].a[0] if v is not None and v.k == "a" and v.a[1] == 1 and v.a[2][0].k == "y" else None
        s, e = now(started), now(completed)
        if s is None or s not in t0:
            self.bad(st, prop, "started:" + what, "%s reports a start time that was not taken before it ran anything (%s)" % (what, show(started)))
        if e is None or e not in self.g(st, "t1"):
            self.bad(st, prop, "completed:" + what, "%s reports a completion time that was not taken after it ran (%s)" % (what, show(completed)))
        self.did(prop, "times:" + what)


# ---------------------------------------------------------------------------------------------- job
class JobRule(WfRule):
    fields = ("pend", "plug", "match", "ons", "times", "t0", "t1", "phase", "failed", "cancelled", "cur", "disp", "pushed", "running", "done", "final", "any",
              "reg")
    init = ((), None, (), (), (), (), (), "init", False, False, None, None, 0, None, False, None, False, None)

    def __init__(self, P, props):
        super().__init__(P, props)
        me = mk("arg", "self")
        self.me = me
        self.steps = self.fo("Job", me, "steps")
        self.id = Y(self.fo("Job", me, "id"))
        self.on = self.fo("Job", me, "on")

    def call(self, E, st, c):
        n = c.name or ""
        if n.endswith("ExecutionContext::run"):
            if E.deep(st, c.args[0]) is not Y(self.ctx):
                self.bad(st, "P12", "step:context", "a step runs in another context: %s" % show(E.deep(st, c.args[0])), c)
            self.dispatch(E, st, c, E.deep(st, c.args[1]))
            return "opaque"
        if n.endswith("::AstroRunSignal::new") or n == "core::default::Default::default" and c.destty is not None and \
                c.destty["s"].endswith("::AstroRunSignal"):
            return Y(mk("pure", "fresh signal", (K(len(self.g(st, "times"))),)))
        if n.endswith("::SignalManager::register_signal"):
            self.registry(E, st, c)
            s = E.full(st, c.args[2])
            if not (s.k == "y" and s.a[0].k == "pure" and s.a[0].a[0] == "fresh signal"):
                self.bad(st, "P11", "register:signal", "the job is registered with %s, not with a signal of its own" % show(s), c)
            if self.g(st, "reg") is not None:
                self.bad(st, "P11", "register:again", "the signal of a job that was %s is registered again" % self.g(st, "reg"), c)
            self.s(st, reg="registered")
            self.did("P11", "registered")
            return UNIT
        if n.endswith("::SignalManager::unregister_signal"):
            self.registry(E, st, c)
            if self.g(st, "cur") is not None:
                self.close(E, st, c)
            if self.g(st, "any") is False and not self.g(st, "done") or self.g(st, "running") is not None or not self.g(st, "done"):
                self.bad(st, "P11", "unregister:early", "the signal of the job is removed while it still has steps to run", c)
            self.s(st, reg="removed")
            return UNIT
        if "::SignalManager::" in n and n.startswith("astro_run::"):
            self.bad(st, "P11", "manager:" + n.rsplit("::", 1)[1], "Job::run calls %s" % n, c)
        return None

    def registry(self, E, st, c):
        t = E.full(st, c.args[0])
        f = self.fo("ExecutionContext", self.ctx, self.cx["signals"])
        if t.k != "y" or not (t.a[0] is f or q.mentions(t, f)):
            self.bad(st, "P11", "manager:other", "the signal is kept in %s, not in the signal manager of the run's own context" % show(t), c)
        k = E.deep(st, c.args[1])
        if k is not self.id:
            self.bad(st, "P11", "key", "the signal of the job is kept under the id %s" % show(k), c)

    def plugged(self, E, st, hook, c):
        if hook == "on_run_job" and self.g(st, "reg") != "registered":
            self.bad(st, "P11", "register:late", "the job start is announced before the job can be cancelled", c)

    def opaqued(self, E, st, c, l):
        if (c.name or "").endswith("ExecutionContext::run"):
            self.s(st, running=l)

    def may_run(self, E, st, e):
        """True / False / None, with the reason"""
        if self.g(st, "cancelled"):
            return False, "the job was cancelled"
        if self.g(st, "failed"):
            coe = E.fact(st, self.fo("Step", e, "continue_on_error"))
            if coe == 0:
                return False, "an earlier step failed"
            if coe is None:
                return None, "an earlier step failed and continue-on-error was not tested"
        k = self.skip_known(E, st, self.fo("Step", e, "on"))
        if k is True:
            return True, ""
        if k is False:
            return False, "its condition does not match"
        return None, "its condition was not evaluated"

    def dispatch(self, E, st, c, v):
        cur = self.g(st, "cur")
        self.did("P03", "dispatch")
        self.did("P11", "dispatch")
        if self.g(st, "reg") != "registered":
            self.bad(st, "P11", "dispatch:unregistered", "a step is dispatched although the job's signal is %s" % (self.g(st, "reg") or "not registered"), c)
        if self.g(st, "phase") != "run":
            self.bad(st, "P06", "job:dispatch-early", "a step is dispatched before the job is reported in progress", c)
        if self.g(st, "running") is not None:
            self.bad(st, "P03", "dispatch:parallel", "a step is dispatched while another one of the job is running", c)
        if cur is None or v is not Y(cur):
            self.bad(st, "P03", "dispatch:other", "the dispatched step (%s) is not the configured step whose turn it is" % show(v), c)
            return
        if self.g(st, "disp") is not None:
            self.bad(st, "P03", "dispatch:twice", "a step is dispatched after it was already %s" % self.g(st, "disp"), c)
        m, why = self.may_run(E, st, cur)
        if m is False:
            self.bad(st, "P03", "dispatch:forbidden:" + why, "a step is dispatched although %s" % why, c)
        elif m is None:
            self.bad(st, "P03" if "condition" not in why else "P19", "dispatch:unchecked:" + why, "a step is dispatched although %s" % why, c)
            if "condition" in why:
                self.did("P19", "step-run-unchecked")
        else:
            self.did("P19", "step-condition")
        if not self.g(st, "t0"):
            self.s(st, t0=self.g(st, "times"))
        self.s(st, disp="dispatched", t1=())

    def awaited(self, E, st, l, c):
        if l is self.g(st, "running"):
            r = []
            si = [f[0] for f in self.A["StepRunResult"]["variants"][0]["fields"]].index("state")
            for nm in ("Succeeded", "Failed", "Cancelled"):
                s2 = st.copy()
                self.s(s2, running=None)
                if nm == "Failed":
                    self.s(s2, failed=True)
                if nm == "Cancelled":
                    self.s(s2, cancelled=True)
                if E.assume(s2, mk("discr", fld(mk("out", l), si, "state")), self.ws.index(nm)):
                    r.append((s2, Y(mk("out", l))))
            return r
        return None

    def on_iter(self, E, st, c, L, e):
        if elem_src(L) is not self.steps:
            return True
        self.s(st, match=tuple(x for x in self.g(st, "match") if not stale(x[0])), ons=tuple(x for x in self.g(st, "ons") if not stale(x[0])))
        self.close(E, st, c)
        if e is None:
            self.s(st, done=True, cur=None, disp=None, pushed=0)
        else:
            if self.g(st, "done"):
                self.s(st, done=False)
            self.s(st, cur=elem_label(L, e), disp=None, pushed=0, any=True)
        return True

    def close(self, E, st, c=None):
        cur = self.g(st, "cur")
        if cur is None:
            return
        if self.g(st, "running") is not None:
            self.bad(st, "P03", "step:unawaited", "the job goes on before the running step has finished", c)
        if self.g(st, "disp") is None:
            self.bad(st, "P03", "step:dropped", "a step is neither dispatched nor reported as skipped", c)
        if self.g(st, "pushed") != 1:
            self.bad(st, "P03", "step:result", "a step contributes %d results to the job" % self.g(st, "pushed"), c)
        self.did("P03", "step-closed")

    def on_push(self, E, st, root, path, old, x, c):
        x = E.deep(st, x)
        if not ((x.k == "a" and x.a[0] == self.A["StepRunResult"]["name"]) or self.is_run(x)):
            return
        cur = self.g(st, "cur")
        self.s(st, pushed=min(self.g(st, "pushed") + 1, 2))
        if self.g(st, "disp") == "dispatched":
            if not self.is_run(x):
                self.bad(st, "P03", "result:other", "the result recorded for a dispatched step is not the one it finished with: %s" % show(x), c)
        elif x.k == "a":
            g = lambda n: self.get("StepRunResult", x, n)
            if cur is not None and g("id") is not Y(self.fo("Step", cur, "id")):
                self.bad(st, "P03", "skip:id", "a skipped step is recorded under another id: %s" % show(g("id")), c)
            if self.statename(g("state")) != "Skipped" or g("exit_code") is not NONE or g("started_at") is not NONE or g("completed_at") is not NONE:
                self.bad(st, "P03", "skip:result", "a skipped step is recorded as %s" % show(x), c)
            self.did("P03", "skip-recorded")
        else:
            self.bad(st, "P03", "result:stale", "a step that was not dispatched gets another step's result", c)

    def is_run(self, x):
        return x.k == "y" and x.a[0].k == "out" and x.a[0].a[0].k == "call" and str(x.a[0].a[0].a[0]).endswith("ExecutionContext::run")

    def event(self, E, st, hook, v, c, l):
        ph = self.g(st, "phase")
        if hook == "on_run_job":
            if ph != "init":
                self.bad(st, "P06", "job:run-order", "the job start is announced in phase %s" % ph, c)
            if self.get("RunEvent", v, "source") is not Y(self.me):
                self.bad(st, "P06", "job:source", "the job start announces %s" % show(v), c)
            self.s(st, phase="announced", t0=self.g(st, "times"))
            return
        if hook == "on_job_completed":
            if ph != "ended":
                self.bad(st, "P06", "job:completed-order", "the job completion is announced in phase %s" % ph, c)
            self.s(st, phase="completed", final=v)
            return
        if hook == "on_state_change":
            lv, i, s = self.state_event(v)
            sn = self.statename(s) if s is not None else None
            if lv == "Job":
                if i is not self.id:
                    self.bad(st, "P06", "job:id", "a job state is announced for %s" % show(i), c)
                if ph == "announced":
                    if sn != "InProgress":
                        self.bad(st, "P06", "job:inprogress", "a started job announces %s first" % show(s), c)
                    self.s(st, phase="run")
                elif ph == "init":
                    if sn != "Skipped":
                        self.bad(st, "P06", "job:early", "the job announces %s before its start is announced" % show(s), c)
                    self.s(st, phase="skipped")
                elif ph == "run":
                    self.close(E, st, c)
                    self.s(st, cur=None)
                    if not self.g(st, "done"):
                        self.bad(st, "P03", "job:early-end", "the job ends before every step was considered", c)
                    want = self.want(st)
                    if sn != want:
                        self.bad(st, "P04", "job:final:%s-%s" % (want, sn), "a job that ended %s announces %s" % (want, show(s)), c)
                    self.did("P04", "job-final:" + want)
                    self.s(st, phase="ended")
                else:
                    self.bad(st, "P06", "job:extra", "the job announces %s in phase %s" % (show(s), ph), c)
                return
            if lv == "Step":
                cur = self.g(st, "cur")
                if cur is None or i is not Y(self.fo("Step", cur, "id")) or sn != "Skipped":
                    self.bad(st, "P03", "skip:event", "the job announces %s for step %s" % (show(s), show(i)), c)
                    return
                if self.g(st, "disp") is not None:
                    self.bad(st, "P03", "skip:twice", "a step is reported skipped after it was %s" % self.g(st, "disp"), c)
                m, why = self.may_run(E, st, cur)
                if m is True:
                    self.bad(st, "P03", "skip:wrong", "a step is skipped although nothing forbids it to run", c)
                elif m is None:
                    self.bad(st, "P03" if "condition" not in why else "P19", "skip:unchecked:" + why, "a step is skipped although %s" % why, c)
                self.did("P03", "skip:" + (why if m is False else "?"))
                if why.startswith("its condition"):
                    self.did("P19", "step-skip")
                self.s(st, disp="skipped")
                return
        self.bad(st, "P06", "job:hook:" + hook, "Job::run itself calls %s(%s)" % (hook, show(v)), c)

    def want(self, st):
        return "Cancelled" if self.g(st, "cancelled") else ("Failed" if self.g(st, "failed") else "Succeeded")

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        self.unfired(st, "P06", "Job::run")
        g = lambda n: self.get("JobRunResult", v, n)
        ph = self.g(st, "phase")
        k = self.skip_known(E, st, self.on)
        if g("id") is not self.id:
            self.bad(st, "P06", "job:result-id", "the job result carries id %s" % show(g("id")))
        if self.g(st, "reg") == "registered":
            self.bad(st, "P11", "unregister:missing", "the job ends while it can still be cancelled (its signal stays registered)")
        self.did("P11", "ends:%s" % ph)
        if ph == "skipped":
            self.did("P19", "job-skip")
            if k is not False:
                self.bad(st, "P19", "job:skip", "the job is skipped although its condition is not known to fail")
            if self.g(st, "any"):
                self.bad(st, "P03", "job:skip-steps", "a skipped job looks at its steps")
            if self.statename(g("state")) != "Skipped" or g("steps") is not seq(()) or g("started_at") is not NONE or g("completed_at") is not NONE:
                self.bad(st, "P04", "job:skip-result", "a skipped job results in %s" % show(v))
            return
        self.did("P19", "job-run")
        if k is not True:
            self.bad(st, "P19", "job:run", "the job runs although its condition is not known to match")
        if ph != "completed":
            for p in ("P06", "P12"):
                self.bad(st, p, "job:incomplete:" + ph, "the job returns in phase %s without announcing its completion" % ph)
            return
        self.did("P06", "job-lifecycle")
        if v is not self.g(st, "final"):
            self.bad(st, "P06", "job:result-differs", "the announced job result differs from the returned one")
        want = self.want(st)
        if self.statename(g("state")) != want:
            self.bad(st, "P04", "job:result:%s" % want, "a job that ended %s results in %s" % (want, show(g("state"))))
        s = g("steps")
        if self.g(st, "any") and not (s.k == "v" and s.a[0]):
            self.bad(st, "P03", "job:result-steps", "the job result does not carry the results of its steps: %s" % show(s))
        self.times_ok(st, "P06", "job", g("started_at"), g("completed_at"))


# ----------------------------------------------------------------------------------------- workflow
class WorkflowRule(WfRule):
    """one arbitrary job W of the workflow (and one arbitrary dependency W2 of it) is tracked through every path"""
    fields = ("pend", "plug", "match", "ons", "times", "t0", "t1", "phase", "launched", "received", "have", "missing", "msg", "stored", "run", "res",
              "full", "closed", "fail", "canc", "final", "looked", "waited", "down", "up", "out")
    init = ((), None, (), (), (), (), (), "init", False, False, False, False, None, True, (), None, False, False, False, False, None, False, False, "even", "even", ())
    # counters of jobs without a result (counting down from the number of jobs) and with one (counting up from 0): "even" while as many
    # are counted as received, "owed" while the last received one is not counted yet, "off" after that
    LEFT = Y(mk("pure", "len", (Y(mk("const", "jobs without a result")),)))
    DONE = Y(mk("pure", "len", (Y(mk("const", "recorded results")),)))

    def __init__(self, P, props):
        super().__init__(P, props)
        me = mk("arg", "self")
        self.me = me
        self.jobs = self.fo("Workflow", me, "jobs")
        self.id = Y(self.fo("Workflow", me, "id"))
        self.on = self.fo("Workflow", me, "on")
        self.W = mk("wit", self.jobs)
        self.wkey = Y(fld(self.W, 0, "0"))
        self.wjob = fld(self.W, 1, "1")
        self.deps = self.fo("Job", self.wjob, "depends_on")
        self.w2 = Y(mk("wit", self.deps))

    def witness(self, E, st, L):
        return L is self.jobs or L is self.deps

    def elem(self, l):
        """the element of self.jobs a label belongs to"""
        while l.k == "old":
            l = l.a[0]
        return l is self.W or l.k == "el" and l.a[0] is self.jobs

    def owner(self, v, i):
        """element whose key (0) / job (1) v is"""
        if v.k == "y" and v.a[0].k == "f" and v.a[0].a[1] == i and self.elem(v.a[0].a[0]):
            return v.a[0].a[0]
        if v.k == "y" and v.a[0].k == "old" and v.a[0].a[0].k == "f":
            return self.owner(Y(v.a[0].a[0]), i)
        # self.jobs.get(key)
        if i == 1 and v.k == "y" and v.a[0].k == "f" and v.a[0].a[0].k == "pure" and v.a[0].a[0].a[0] == "get" and v.a[0].a[0].a[1][0] is Y(self.jobs):
            return self.owner(v.a[0].a[0].a[1][1], 0)
        return None

    def on_fact(self, E, st, l, n):
        super().on_fact(E, st, l, n)
        # a dependency that is not a job is rejected when the workflow is built (P18)
        if l.k == "discr" and n == 0 and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][0] is Y(self.jobs):
            return False
        if l.k == "pure":
            nm, a = l.a[0], l.a[1]
            # a workflow without jobs is rejected when it is built (P18)
            if a[0] is Y(self.jobs) and (nm == "len" and n == 0 or nm == "empty" and n == 1):
                return False
            if nm == "empty" and a[0].k == "y":
                ln = mk("pure", "len", a)
                return E.assume(st, ln, 0) if n else E.assume_not(st, ln, (0,))
            if nm == "eq" and n == 1:
                x, y = [self.owner(v, 0) for v in a]
                if x is not None and y is not None and x is not y and (x is self.W or y is self.W):
                    return False
                # a job reports once, so two messages never carry the same key
                if x is None and y is None and a[0] is not a[1] and all(v.k == "y" and self.is_msg(v.a[0]) for v in a):
                    return False
            if nm == "len" and Y(l) is self.LEFT and n == 0 and self.g(st, "down") == "even":
                self.s(st, full=True)
            if nm in ("eq", "lt") and (n == 1) == (nm == "eq"):
                h = [v for v in a if v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "len"]
                if len(h) == 2 and any(v.a[0].a[1][0] is Y(self.jobs) for v in h) and any(self.is_results(v.a[0].a[1][0]) or v is self.DONE and self.g(st, "up") == "even" for v in h):
                    if nm == "eq" or a[1].a[0].a[1][0] is Y(self.jobs):
                        self.s(st, full=True)
        return True

    def forget(self, l):
        if l.k != "pure" or l is self.LEFT.a[0] or l is self.DONE.a[0] or any(x is self.LEFT or x is self.DONE for x in l.a[1]):
            return False
        if l.a[0] == "eq":
            return not (any(x is self.wkey for x in l.a[1]) and any(x.k == "y" and x.a[0].k == "f" and self.is_msg(x.a[0]) for x in l.a[1]))
        if l.a[0] == "len":
            return l.a[1][0] is not Y(self.jobs) and l.a[1][0] is not Y(self.deps)
        return l.a[0] in ("lt",)

    def on_arith(self, E, st, op, a, b):
        if b is not K(1) or self.g(st, "msg") is None:
            return None
        w, v0, v = ("down", Y(mk("pure", "len", (Y(self.jobs),))), self.LEFT) if op == "Sub" else ("up", K(0), self.DONE)
        if a is not v and (a is not v0 or self.g(st, w) != "owed"):
            return None
        for l in [l for l in st.facts if l is v.a[0] or l.k == "pure" and any(x is v for x in l.a[1])]:
            st.facts.pop(l)
        self.s(st, **{w: "even" if self.g(st, w) == "owed" else "off"})
        return v

    def is_msg(self, l):
        while l.k == "old":
            l = l.a[0]
        return l.k == "f" and self.is_recv(l.a[0])

    def is_recv(self, l):
        while l.k == "old":
            l = l.a[0]
        if l.k == "f":
            return self.is_recv(l.a[0])
        if l.k != "out":
            return False
        l = l.a[0]
        while l.k == "old":
            l = l.a[0]
        return l.k == "call" and str(l.a[0]).endswith("Receiver::recv")

    def is_results(self, v):
        return v.k == "hm" and v.a[0] is None and len(v.a[1]) > 0 and all(x.k == "y" and self.is_recv(x.a[0]) for k, x in v.a[1])

    # --- launching
    def call(self, E, st, c):
        n = c.name or ""
        b = E.P.bodies.get(c.id)
        if n.endswith("::Job::run") and b is not None and b.crate == "astro_run":
            self.launch(E, st, c)
            return "opaque"
        if n.endswith("Sender::try_send"):
            s2 = st.copy()  # no room
            self.sent(E, st, c, E.deep(st, c.args[1]))
            return N.out(E, c, [(st, ok(UNIT)), (s2, err(Y(mk("const", "send error"))))])
        if n.endswith("bounded::Sender::send"):
            return "opaque"  # sent when awaited
        if n.endswith("Sender::send") or n.endswith("Sender::blocking_send"):
            self.sent(E, st, c, E.deep(st, c.args[1]))
        return None

    def launch(self, E, st, c):
        j = E.deep(st, c.args[0])
        x = self.owner(j, 1)
        if x is None:
            self.bad(st, "P01", "launch:other", "Workflow::run runs %s, which is not one of its jobs" % show(j), c)
            return
        self.did("P01", "launch")
        if E.full(st, c.args[1]) is not Y(self.ctx) and E.deep(st, c.args[1]) is not Y(self.ctx):
            self.bad(st, "P12", "job:context", "a job runs in another context: %s" % show(E.deep(st, c.args[1])), c)
        if self.g(st, "phase") != "run":
            self.bad(st, "P06", "workflow:early-launch", "a job is started before the workflow is reported in progress", c)
        if x is not self.W:
            return
        if self.g(st, "launched"):
            self.bad(st, "P01", "launch:twice", "the same job is started a second time", c)
        if E.fact(st, mk("pure", "len", (Y(self.deps),))) == 0 or E.fact(st, mk("pure", "empty", (Y(self.deps),))) == 1:
            self.did("P01", "launch-independent")
        elif self.g(st, "have"):
            self.did("P01", "launch-after-dependencies")
        else:
            self.bad(st, "P01", "launch:early", "a job is started although one of the jobs it depends on may have no result yet", c)
        self.s(st, launched=True)

    def opaqued(self, E, st, c, l):
        n = c.name or ""
        if n.endswith("::Job::run"):
            x = self.owner(E.deep(st, c.args[0]), 1)
            self.s(st, run=((l, x),))
        if n.endswith("bounded::Sender::send"):
            self.s(st, out=((l, E.deep(st, c.args[1])),))

    def on_task_end(self, E, st, v):
        if self.g(st, "run"):
            self.bad(st, "P01", "task:silent", "the task of a job may end without having sent the job's result")
            self.s(st, run=())
        self.s(st, out=())

    def on_spawn(self, E, st, c, fut):
        return "inline"

    def sent(self, E, st, c, v):
        k, r = (v.a[0] if v.k == "t" and len(v.a[0]) == 2 else (v, v))
        x = self.owner(k, 0)
        good = [y for l, y in self.g(st, "run") if r is Y(mk("out", l))]
        if x is None or not good or good[0] is not x:
            self.bad(st, "P01", "send:mismatch", "a finished job reports %s under %s" % (show(r), show(k)), c)
        self.s(st, run=())
        self.did("P01", "result-sent")

    # --- receiving
    def awaited(self, E, st, l, c):
        if l.k == "call" and str(l.a[0]).endswith("Receiver::recv"):
            return self.wait(E, st, l, c)
        for x, v in self.g(st, "out"):
            if x is l:
                self.sent(E, st, c, v)
                self.s(st, out=())
        return None

    def sender_live(self, st):
        def has(v):
            return any(x.k == "f" and x.a[1] == 0 and x.a[0].k == "call" and "mpsc" in str(x.a[0].a[0]) for x in q.labels(v))
        for f in st.fr:
            for v in f.loc.values():
                if v.k not in ("moved",) and has(v):
                    return True
        return False

    def wait(self, E, st, l, c):
        self.msgdone(st, c)
        self.s(st, t1=())
        if not self.g(st, "launched"):
            if E.fact(st, mk("pure", "empty", (Y(self.jobs),))) == 1:
                return "kill"  # a workflow without jobs is rejected when it is built (P18)
            else:
                d0 = E.fact(st, mk("pure", "len", (Y(self.deps),))) == 0 or E.fact(st, mk("pure", "empty", (Y(self.deps),))) == 1
                if d0 or self.g(st, "waited") and not self.g(st, "missing"):
                    self.bad(st, "P01", "wait:stuck" + (":independent" if d0 else ""),
                             "the workflow waits for results without having started a job %s" % ("that depends on nothing" if d0 else "although no dependency of it was seen missing"), c)
                else:
                    self.did("P01", "wait-for-dependencies")
        else:
            self.did("P01", "wait-launched")
        r = []
        o = mk("out", l)
        if not self.sender_live(st) and not (self.g(st, "launched") and not self.g(st, "received")):
            s0 = st.copy()
            self.s(s0, closed=True)
            r.append((s0, NONE))
        m = fld(o, 0, "Some.0")
        key = Y(fld(m, 0, "0"))
        val = fld(m, 1, "1")
        sd = mk("discr", self.fo("JobRunResult", val, "state"))
        for nm in ("Failed", "Cancelled", None):
            for mine in (True, False):
                if mine and (not self.g(st, "launched") or self.g(st, "received")):
                    continue
                s2 = st.copy()
                if nm is None:
                    E.assume_not(s2, sd, [i for i, n in enumerate(self.ws) if n not in ("Succeeded", "Skipped")])
                elif not E.assume(s2, sd, self.ws.index(nm)):
                    continue
                e = E.eq(s2, key, self.wkey)
                if not E.assume_val(s2, e, 1 if mine else 0):
                    continue
                nx = {"even": "owed", "owed": "off", "off": "off"}
                kw = dict(msg=m, stored=False, missing=False, full=False, waited=True, down=nx[self.g(st, "down")], up=nx[self.g(st, "up")])
                if mine:
                    kw["received"] = True
                if nm == "Failed":
                    kw["fail"] = True
                if nm == "Cancelled":
                    kw["canc"] = True
                self.s(s2, **kw)
                r.append((s2, some(Y(m))))
        return r

    def msgdone(self, st, c=None):
        if self.g(st, "msg") is not None and not self.g(st, "stored"):
            self.bad(st, "P01", "message:dropped", "a job result is received but not recorded", c)

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        m = self.g(st, "msg")
        if m is None:
            return
        val = E.deep(st, val)
        key = E.deep(st, key)
        if val.k == "y" and self.is_recv(val.a[0]) or val.k == "o":
            if val is not Y(fld(m, 1, "1")) or key is not Y(fld(m, 0, "0")):
                self.bad(st, "P01", "message:other", "the recorded result is (%s, %s), not the received one" % (show(key), show(val)), c)
            else:
                self.did("P01", "result-recorded")
            self.s(st, stored=True, res=(root, path), missing=False)

    def on_map_remove(self, E, st, c, root, path, mv, key):
        if self.g(st, "res") == (root, path):
            self.bad(st, "P01", "result:removed", "a recorded job result is removed again", c)

    def on_lookup(self, E, st, c, root, path, key, found):
        key = E.deep(st, key)
        if root is not None and root[0] == "S" and E.orig(root, path) is Y(self.jobs):
            # an unknown dependency is rejected when the workflow is built (P18)
            if found is False:
                return False
            return True
        dep = key.k == "y" and (key is self.w2 or key.a[0].k == "el" and key.a[0].a[0] is self.deps)
        if dep and root is not None:
            mv = E.full(st, E.read(st, root, path))
            if self.is_results(mv) or self.g(st, "res") == (root, path):
                self.did("P01", "dependency-lookup")
                if found is False:
                    self.s(st, missing=True)
                elif found is True and key is self.w2:
                    self.s(st, have=True)
        return True

    # --- events
    def event(self, E, st, hook, v, c, l):
        ph = self.g(st, "phase")
        if hook == "on_run_workflow":
            if ph != "init":
                self.bad(st, "P06", "workflow:run-order", "the workflow start is announced in phase %s" % ph, c)
            if self.get("RunEvent", v, "source") is not Y(self.me):
                self.bad(st, "P06", "workflow:source", "the workflow start announces %s" % show(v), c)
            self.s(st, phase="announced", t0=self.g(st, "times"))
            return
        if hook == "on_workflow_completed":
            if ph != "ended":
                self.bad(st, "P06", "workflow:completed-order", "the workflow completion is announced in phase %s" % ph, c)
            self.s(st, phase="completed", final=v)
            return
        if hook == "on_state_change":
            lv, i, s = self.state_event(v)
            sn = self.statename(s) if s is not None else None
            if lv == "Workflow":
                if i is not self.id:
                    self.bad(st, "P06", "workflow:id", "a workflow state is announced for %s" % show(i), c)
                if ph == "announced":
                    if sn != "InProgress":
                        self.bad(st, "P06", "workflow:inprogress", "a started workflow announces %s first" % show(s), c)
                    self.s(st, phase="run")
                elif ph == "init":
                    if sn != "Skipped":
                        self.bad(st, "P06", "workflow:early", "the workflow announces %s before its start is announced" % show(s), c)
                    self.s(st, phase="skipped")
                elif ph == "run":
                    self.msgdone(st, c)
                    if not self.g(st, "full") and not (self.g(st, "closed") and (self.g(st, "received") or E.fact(st, mk("pure", "empty", (Y(self.jobs),))) == 1)):
                        self.bad(st, "P01", "exit:early", "the workflow ends although a job may have no result", c)
                    else:
                        self.did("P01", "complete")
                    self.final(st, sn, s, "announces", c)
                    self.s(st, phase="ended")
                else:
                    self.bad(st, "P06", "workflow:extra", "the workflow announces %s in phase %s" % (show(s), ph), c)
                return
        self.bad(st, "P06", "workflow:hook:" + hook, "Workflow::run itself calls %s(%s)" % (hook, show(v)), c)

    def final(self, st, sn, s, what, c=None):
        ok_ = set()
        if self.g(st, "fail"):
            ok_.add("Failed")
        if self.g(st, "canc"):
            ok_.add("Cancelled")
        want = ok_ or {"Succeeded"}
        if sn not in want:
            self.bad(st, "P04", "workflow:%s:%s-%s" % (what, "/".join(sorted(want)), sn), "a workflow whose jobs %s %s %s" %
                     ("ended " + "/".join(sorted(ok_)) if ok_ else "all succeeded or were skipped", what, show(s)), c)
        self.did("P04", "workflow-%s:%s" % (what, "/".join(sorted(want))))

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        self.unfired(st, "P06", "Workflow::run")
        g = lambda n: self.get("WorkflowRunResult", v, n)
        ph = self.g(st, "phase")
        k = self.skip_known(E, st, self.on)
        if g("id") is not self.id:
            self.bad(st, "P06", "workflow:result-id", "the workflow result carries id %s" % show(g("id")))
        if ph == "skipped":
            self.did("P19", "workflow-skip")
            if k is not False:
                self.bad(st, "P19", "workflow:skip", "the workflow is skipped although its condition is not known to fail")
            if self.g(st, "launched"):
                self.bad(st, "P19", "workflow:skip-jobs", "a skipped workflow runs jobs")
            if self.statename(g("state")) != "Skipped" or g("jobs") is not hmap(None, ()) or g("started_at") is not NONE or g("completed_at") is not NONE:
                self.bad(st, "P04", "workflow:skip-result", "a skipped workflow results in %s" % show(v))
            return
        self.did("P19", "workflow-run")
        if k is not True:
            self.bad(st, "P19", "workflow:run", "the workflow runs although its condition is not known to match")
        if ph != "completed":
            for p in ("P06", "P12"):
                self.bad(st, p, "workflow:incomplete:" + ph, "the workflow returns in phase %s without announcing its completion" % ph)
            return
        self.did("P06", "workflow-lifecycle")
        if v is not self.g(st, "final"):
            self.bad(st, "P06", "workflow:result-differs", "the announced workflow result differs from the returned one")
        self.final(st, self.statename(g("state")), g("state"), "results in")
        j = g("jobs")
        if self.g(st, "waited") and not self.is_results(j):
            self.bad(st, "P01", "result:jobs", "the workflow result does not carry the results of its jobs: %s" % show(j))
        self.times_ok(st, "P06", "workflow", g("started_at"), g("completed_at"))


# --------------------------------------------------------------------------------------------- step
class StepRule(WfRule):
    """ExecutionContext::run: the life of one dispatched step"""
    fields = ("pend", "plug", "match", "ons", "times", "t0", "t1", "phase", "sv", "pb", "rb", "sig", "jsig", "futs", "fired", "owed", "logp", "ended",
              "res", "polled", "final", "ran", "pay", "until", "rand")
    init = ((), None, (), (), (), (), (), "init", None, 0, 0, None, None, (), False, None, None, False, None, frozenset(), None, False, (), None, False)
    coarse = False

    def __init__(self, P, props):
        super().__init__(P, props)
        self.ctx = mk("arg", "self")
        self.step = mk("arg", "step")

    def start(self):
        a = list(self.init)
        a[self.fields.index("sv")] = Y(self.step)
        return tuple(a)

    def over(self, st):
        return self.g(st, "ended") or self.g(st, "phase") == "notrun"

    def sf(self, st, name):
        return self.get("Step", self.g(st, "sv"), name)

    # --- calls
    def call(self, E, st, c):
        n = c.name or ""
        if n == "tokio::macros::support::thread_rng_n":
            self.s(st, rand=True)  # select! starts with any of its branches
            return None
        if n == RUNNER + "run":
            self.run_call(E, st, c)
            return "opaque"
        if n.endswith("::AstroRunSignal::new") or n.endswith("::AstroRunSignal::recv") or n.endswith("::StreamReceiver::is_ended"):
            return "opaque"
        if n.endswith("::AstroRunSignal::cancel") or n.endswith("::AstroRunSignal::timeout"):
            self.sigcall(E, st, c, n.rsplit("::", 1)[1])
            return N.out(E, c, [(st.copy(), ok(UNIT)), (st, err(Y(mk("const", "signal error"))))])
        if n.endswith("::AstroRunSignal::is_cancelled") or n.endswith("::AstroRunSignal::is_timeout"):
            return "opaque"
        if n.endswith("::SignalManager::get_signal"):
            a = E.deep(st, c.args[1])
            l = E.fresh(st, c)
            self.s(st, jsig=l)
            if not self.jobof(a, self.get("Step", Y(self.step), "id")):  # the job that runs the step, whatever id hooks give it
                self.bad(st, "P08", "jobsignal:id", "the step listens to the signal of %s, not to that of the job that runs it" % show(a), c)
                s2 = st.copy()
                return N.out(E, c, [(st, some(Y(l))), (s2, NONE)])
            self.did("P08", "job-signal")
            return some(Y(l))
        if n.endswith("::StreamReceiver::result"):
            if not self.g(st, "ended"):
                self.bad(st, "P05", "result:early", "the result is read before the log stream has ended", c)
            rr = self.A["RunResult"]
            l = E.fresh(st, c)
            r = []
            for i, v in enumerate(rr["variants"]):
                s2 = st.copy()
                pl = tuple(Y(fld(l, j, v["name"] + "." + f[0])) for j, f in enumerate(v["fields"]))
                self.s(s2, res=(v["name"], pl))
                r.append((s2, some(mk("a", rr["name"], i, pl))))
            return N.out(E, c, r)
        return None

    def jobof(self, v, sid):
        """v is the job id inside step id sid"""
        if v.k != "a" or sid is None or sid.k != "y":
            return False
        fs = self.A["StepId"]["variants"][0]["fields"]
        return all(x is Y(fld(sid.a[0], i, fs[i][0])) for i, x in enumerate(v.a[2]))

    def sigcall(self, E, st, c, kind):
        t = E.full(st, c.args[0])
        sg = self.g(st, "sig")
        if sg is None or t is not Y(sg):
            self.bad(st, "P08", "signal:target", "%s() is called on %s, not on the signal handed to the runner" % (kind, show(t)), c)
            return
        if self.g(st, "owed") == "timeout" and self.g(st, "fired") and kind != "timeout":
            self.bad(st, "P07", "signal:timeout-as:" + kind, "a step whose timeout has passed is told to %s" % kind, c)
        if self.g(st, "owed") != kind:
            self.bad(st, "P08", "signal:spurious:" + kind, "the step is told to stop (%s) although nothing asked for it (%s)" % (kind, self.g(st, "owed")), c)
        self.did("P07" if kind == "timeout" and self.g(st, "fired") else "P08", "forwarded:" + kind)
        self.s(st, owed=None)

    def run_call(self, E, st, c):
        v = E.deep(st, c.args[1])
        g = lambda n: self.get("Context", v, n)
        self.did("P02", "runner-invoked")
        if self.g(st, "ran"):
            self.bad(st, "P02", "run:twice", "the runner is asked to run the same step twice", c)
        if self.g(st, "phase") != "queued":
            self.bad(st, "P06", "run:order", "the runner is asked to run the step in phase %s" % self.g(st, "phase"), c)
        if g("id") is not self.sf(st, "id"):
            self.bad(st, "P02", "run:id", "the runner gets id %s" % show(g("id")), c)
        sg = g("signal")
        if sg is None or sg.k != "y" or sg.a[0].k != "call" or not str(sg.a[0].a[0]).endswith("AstroRunSignal::new"):
            self.bad(st, "P02", "run:signal", "the runner gets signal %s" % show(sg), c)
        else:
            self.s(st, sig=sg.a[0])
        cmd = g("command")
        for f in self.A["Command"]["variants"][0]["fields"]:
            have = self.get("Command", cmd, f[0])
            want = self.sf(st, f[0])
            self.did("P02", "command-field")
            if have is not want:
                self.bad(st, "P02", "run:command:" + f[0], "the runner gets %s = %s instead of %s" % (f[0], show(have), show(want)), c)
        ev = g("event")
        if not (ev.k == "y" and ev.a[0].k == "f" and ev.a[0].a[2] == "event" and self.root(ev.a[0]) is mk("arg", "self")):
            self.bad(st, "P02", "run:event", "the runner gets event %s" % show(ev), c)
        pl = g("payload")
        p0 = [l for l in st.facts if l.k == "discr" and l.a[0].k == "f" and l.a[0].a[2] == "payload" and l.a[0].a[0] is mk("arg", "self")]
        none = any(E.fact(st, l) == 0 for l in p0)
        good = pl is NONE and none or pl.k == "a" and pl.a[1] == 1 and any(
            a is Y(fld(l.a[0], 0, "Some.0")) and pl.a[2][0].k == "y" and self.root(pl.a[2][0].a[0]) is r for l in p0 for a, r in self.g(st, "pay"))
        if not good:
            self.bad(st, "P02", "run:payload", "the runner gets payload %s" % show(pl), c)
        self.s(st, ran=True)

    def root(self, l):
        while l.k == "f":
            l = l.a[0]
        return l

    def opaqued(self, E, st, c, l):
        n = c.name or ""
        add = None
        if n.endswith("PluginDriver::on_before_run_step"):
            self.before(E, st, c, E.deep(st, c.args[1]), "pb")
            add = "pbefore"
        elif n == RUNNER + "run":
            add = "run"
        elif n.endswith("::AstroRunSignal::recv"):
            t = E.full(st, c.args[0])
            j = self.g(st, "jsig")
            add = "job" if j is not None and t is Y(j) else "other"
        elif n.endswith("StreamExt::next"):
            add = "next"
        elif "tokio::time::" in n and n.rsplit("::", 1)[1] in ("sleep", "sleep_until"):
            a = E.deep(st, c.args[0])
            to = self.sf(st, "timeout")
            if n.endswith("sleep") and a is not to or n.endswith("sleep_until") and not q.mentions(a, to):
                self.bad(st, "P07", "sleep:duration", "the step's timer runs for %s, not for its timeout" % show(a), c)
            prev = [x for x in self.g(st, "futs") if x[1] == "sleep"]
            if prev and not (n.endswith("sleep_until") and a is self.g(st, "until")) and not self.g(st, "fired"):
                self.bad(st, "P07", "sleep:restarted", "the step's timer is started again while the step runs, so its timeout may never be reached", c)
            if n.endswith("sleep_until"):
                self.s(st, until=a)
            self.did("P07", "timer")
            add = "sleep"
        elif n.endswith("to_string") and n.startswith("serde_json"):
            self.s(st, pay=tuple(x for x in self.g(st, "pay") if x[1] is not l)[-3:] + ((E.deep(st, c.args[0]), l),))
        if add:
            self.s(st, futs=tuple(x for x in self.g(st, "futs") if x[0] is not l and not stale(x[0])) + ((l, add),))

    def before(self, E, st, c, v, who):
        if v is not self.g(st, "sv"):
            self.bad(st, "P02", "before:arg:" + who, "the before-run hook gets %s" % show(v), c)
        if self.g(st, "phase") != "init" or self.g(st, who):
            self.bad(st, "P06", "before:order:" + who, "the before-run hook is called in phase %s" % self.g(st, "phase"), c)
        self.s(st, **{who: 1})
        self.did("P06", "before:" + who)

    def kind(self, st, l):
        for x, k in self.g(st, "futs"):
            if x is l:
                return k
        return None

    def on_pending(self, E, st, l, c):
        k = self.kind(st, l)
        if k:
            self.s(st, polled=self.g(st, "polled") | {k})

    def settled(self, st, what, c=None):
        if self.g(st, "owed"):
            self.bad(st, "P07" if self.g(st, "fired") and self.g(st, "owed") == "timeout" else "P08", "signal:lost:" + self.g(st, "owed"),
                     "the step goes on (%s) without telling the runner to stop (%s)" % (what, self.g(st, "owed")), c)
        if self.g(st, "logp") is not None:
            for p in ("P05", "P12"):
                self.bad(st, p, "log:lost", "the step goes on (%s) without forwarding the log it received" % what, c)

    def on_yield(self, E, st):
        self.settled(st, "waits")
        p = self.g(st, "polled")
        if self.g(st, "phase") != "progress":
            self.bad(st, "P06", "wait:phase", "the step waits for its runner in phase %s" % self.g(st, "phase"))
        if "next" not in p:
            self.bad(st, "P05", "wait:logs", "the step waits without listening to the runner's stream")
        if "job" not in p:
            self.bad(st, "P08", "wait:job", "the step waits without listening to the signal of its job")
        if "sleep" not in p and not self.g(st, "fired"):
            self.bad(st, "P07", "wait:timer", "the step waits without a timer although its timeout has not passed")
        for x in ("P05", "P07", "P08"):
            self.did(x, "wait")
        self.s(st, polled=frozenset(), rand=False)

    def awaited(self, E, st, l, c):
        k = self.kind(st, l)
        o = mk("out", l)
        if k == "pbefore":
            self.s(st, sv=Y(o))
            return Y(o)
        if k == "run":
            good = st.copy()
            self.s(good, phase="ran")
            self.s(st, phase="notrun")
            return [(good, ok(Y(fld(o, 0, "Ok.0")))), (st, err(Y(fld(o, 0, "Err.0"))))]
        if k == "sleep":
            self.settled(st, "polls its timer", c)
            if self.g(st, "fired"):
                self.bad(st, "P07", "timer:again", "the timer is awaited again after it has fired", c)
            self.s(st, fired=True, owed="timeout", polled=frozenset(), rand=False)
            return UNIT
        if k == "job":
            self.settled(st, "polls the job signal", c)
            r = []
            sg = self.A["Signal"]
            for i, v in enumerate(sg["variants"]):
                s2 = st.copy()
                self.s(s2, owed=v["name"].lower(), polled=frozenset(), rand=False)
                r.append((s2, mk("a", sg["name"], i, ())))
            return r
        if k == "next":
            self.settled(st, "polls the stream", c)
            if self.g(st, "ended"):
                self.bad(st, "P05", "next:after-end", "the stream is read on after its end", c)
            p = self.g(st, "polled")
            if not self.g(st, "rand") and not self.g(st, "fired"):
                for k, x, w in (("sleep", "P07", "its timer"), ("job", "P08", "the signal of its job")):
                    if k not in p:
                        self.bad(st, x, "starve:" + k, "while the runner's stream has logs, the step goes on reading them without ever looking at %s" % w, c)
            s2 = st.copy()
            self.s(s2, ended=True, polled=frozenset(), rand=False)
            m = fld(o, 0, "Some.0")
            self.s(st, logp=m, polled=frozenset(), rand=False)
            return [(s2, NONE), (st, some(Y(m)))]
        return None

    # --- events
    def event(self, E, st, hook, v, c, l):
        ph = self.g(st, "phase")
        o = mk("out", l)
        sid = self.sf(st, "id")
        if hook == "on_before_run_step":
            self.before(E, st, c, v, "rb")
            s2 = st.copy()
            p = Y(fld(o, 0, "Ok.0"))
            self.s(s2, sv=p)
            return [(s2, ok(p)), (st, err(Y(fld(o, 0, "Err.0"))))]
        if hook == "on_run_step":
            if ph != "init" or not self.g(st, "pb") or not self.g(st, "rb"):
                self.bad(st, "P06", "step:run-order", "the step start is announced in phase %s" % ph, c)
            if self.get("RunEvent", v, "source") is not self.g(st, "sv"):
                self.bad(st, "P06", "step:source", "the step start announces %s" % show(self.get("RunEvent", v, "source")), c)
            self.s(st, phase="announced", t0=self.g(st, "times"))
            return
        if hook == "on_log":
            m = self.g(st, "logp")
            g = lambda n: self.get("WorkflowLog", v, n)
            if ph != "progress":
                self.bad(st, "P06", "log:order", "a log is forwarded in phase %s" % ph, c)
            if m is None:
                self.bad(st, "P05", "log:twice", "a log is forwarded that was not just received: %s" % show(v), c)
                return
            if g("step_id") is not sid or g("log_type") is not Y(self.fo("Log", m, "log_type")) or g("message") is not Y(self.fo("Log", m, "message")):
                self.bad(st, "P05", "log:changed", "the forwarded log differs from the received one: %s" % show(v), c)
            self.did("P05", "log-forwarded")
            self.s(st, logp=None)
            return
        if hook == "on_step_completed":
            if ph != "ended":
                self.bad(st, "P06", "step:completed-order", "the step completion is announced in phase %s" % ph, c)
            self.s(st, phase="completed", final=v)
            return
        if hook == "on_state_change":
            lv, i, s = self.state_event(v)
            sn = self.statename(s) if s is not None else None
            if lv == "Step":
                if i is not sid:
                    self.bad(st, "P06", "step:id", "a step state is announced for %s" % show(i), c)
                nxt = {"announced": ("Queued", "queued"), "ran": ("InProgress", "progress")}.get(ph)
                if nxt:
                    if sn != nxt[0]:
                        self.bad(st, "P06", "step:state:" + nxt[0], "a step announces %s where %s is due" % (show(s), nxt[0]), c)
                    self.s(st, phase=nxt[1])
                elif ph in ("progress", "notrun"):
                    self.settled(st, "ends", c)
                    want = self.want(st)[0]
                    if sn != want:
                        self.bad(st, "P05", "step:final:%s" % want, "a step that ended %s announces %s" % (want, show(s)), c)
                    self.did("P05", "final:%s" % want)
                    self.s(st, phase="ended")
                else:
                    self.bad(st, "P06", "step:extra", "the step announces %s in phase %s" % (show(s), ph), c)
                return
        self.bad(st, "P06", "step:hook:" + hook, "ExecutionContext::run itself calls %s(%s)" % (hook, show(v)), c)

    def want(self, st):
        r = self.g(st, "res")
        if self.g(st, "phase") == "notrun" or r is None and self.g(st, "sig") is not None and not self.g(st, "ended"):
            return "Failed", some(K(1))
        if r is None:
            return "?", None
        return {"Succeeded": ("Succeeded", NONE), "Cancelled": ("Cancelled", NONE)}.get(r[0]) or ("Failed", some(r[1][0]))

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        self.unfired(st, "P06", "ExecutionContext::run")
        g = lambda n: self.get("StepRunResult", v, n)
        ph = self.g(st, "phase")
        if ph != "completed":
            for p in ("P06", "P12"):
                self.bad(st, p, "step:incomplete:" + ph, "the step returns in phase %s without announcing its completion" % ph)
            return
        self.did("P06", "step-lifecycle")
        if v is not self.g(st, "final"):
            self.bad(st, "P06", "step:result-differs", "the announced step result differs from the returned one")
        if g("id") is not self.sf(st, "id"):
            self.bad(st, "P06", "step:result-id", "the step result carries id %s" % show(g("id")))
        want, code = self.want(st)
        if self.statename(g("state")) != want or g("exit_code") is not code:
            self.bad(st, "P05", "step:result:%s" % want, "a step that ended %s (%s) results in %s, %s" %
                     (want, show(code), show(g("state")), show(g("exit_code"))))
        self.did("P05", "result:%s" % want)
        self.times_ok(st, "P06", "step", g("started_at"), g("completed_at"))


def run_level(P, R, which, props):
    cls, ty, fn, args = ENTRY[which]
    bs = q.method(P, "astro_run", ty, fn)
    if not R.need(bs, "%s::%s" % (ty, fn)):
        return None
    rule = cls(P, set(props))
    R.run(P, rule, bs[0], args=[Y(mk("arg", a)) for a in args], is_async=True, auto=rule.start())
    return rule


ENTRY = {"job": (JobRule, "Job", "run", ["self", "ctx"]),
         "workflow": (WorkflowRule, "Workflow", "run", ["self", "ctx"]),
         "step": (StepRule, "ExecutionContext", "run", ["self", "step"])}


def levels(P, R, which, floors):
    rules = [run_level(P, R, w, {R.pid}) for w in which]
    if all(r is not None for r in rules):
        for n, k in floors.items():
            R.floor(None, n, k)
