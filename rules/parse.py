"""Shared typestate of WorkflowBuilder::build: from the parsed configuration to the workflow that runs."""
from ar import q
from ar import natives as N
from ar.vals import *
from . import wf
from .common import chain

USERWF = "UserWorkflow"


def tok(kind, who, job):
    return mk("pure", kind, (Y(mk("const", who)), Y(job)))


class ParseRule(wf.AutoRule):
    """One arbitrary user step w of an arbitrary job is followed; the other steps before (b) and after (a) it stand for any number of them."""
    coarse = False
    fields = ("job", "who", "act", "look", "res", "norm", "cnt", "gap", "ins", "idv", "started", "wn", "has")
    init = (None, "b", None, None, None, False, (), (), True, None, False, False, ())
    LITE = {"unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "map", "and_then", "map_or", "map_or_else"}

    def __init__(self, P, props, side=None, gid=True):
        super().__init__(props)
        self.P = P
        self.side = side
        self.gid = gid
        self.A = {n: q.adt(P, n, "astro_run") for n in ("Step", "Job", "Workflow", "StepId", "JobId", "WorkflowId", "UserStep", "UserCommandStep", "UserActionStep",
                                                        "UserJob", "UserWorkflow", "ActionSteps", "Container", "ContainerOptions")}
        self.uw = mk("arg", "user workflow")
        self.vcmd = [v["name"] for v in self.A["UserStep"]["variants"]].index("Command")
        self.vact = [v["name"] for v in self.A["UserStep"]["variants"]].index("Action")
        self.names = {}

    def fo(self, adt, l, name):
        return wf.field_of(self.P, self.A[adt], l, name)

    def get(self, adt, v, name):
        for i, f in enumerate(self.A[adt]["variants"][0]["fields"]):
            if f[0] == name:
                return self.E.proj(None, v, ("f", i, name))
        return None

    def start(self):
        return tuple(self.init)

    def is_stop(self, c):
        return True

    # --- calls
    def on_call(self, E, st, c):
        n = c.name or ""
        dt = c.destty["s"] if c.destty is not None else ""
        if n.endswith("TryFrom::try_from") and "UserWorkflow" in dt or n.startswith("serde_yaml::") and n.endswith("::from_str") or n == "serde_yaml::de::from_str":
            if not self.str_is(E.deep(st, c.args[0]), Y(mk("arg", "config"))):
                self.bad(st, "P17", "config:other", "the workflow is parsed from %s" % show(E.deep(st, c.args[0])), c)
            return N.out(E, c, [(st.copy(), ok(Y(self.uw))), (st, err(Y(mk("const", "config error"))))])
        if n.endswith("humantime::duration::parse_duration") or n == "humantime::parse_duration":
            a = E.deep(st, c.args[0])
            if self.lite(a):
                return N.out(E, c, [(st, ok(Y(mk("pure", "duration", (a,)))))])
            return N.out(E, c, [(st.copy(), ok(Y(mk("pure", "duration", (a,))))), (st, err(Y(mk("const", "bad duration"))))])
        if n == "astro_run::actions::Action::normalize":
            return self.normalize(E, st, c)
        if n == "astro_run::plugins::plugin_driver::PluginDriver::on_resolve_dynamic_action":
            self.resolve(E, st, c)
            return "opaque"
        if n.startswith("core::option::Option::") and n.rsplit("::", 1)[1] in self.LITE:
            a = [E.deep(st, x) for x in c.args]
            if a[0].k == "y" and self.lite(a[0]):
                return N.out(E, c, [(st, Y(mk("pure", "opt:" + n.rsplit("::", 1)[1], tuple(a))))])
        return None

    def lite(self, v):
        """a field of a command step whose value is not followed in this run: it is not split into cases"""
        for l in q.labels(v):
            x = l
            cmd = False
            while x.k == "f":
                cmd = cmd or x.a[2] == "Command.0"
                x = x.a[0]
            if l.k == "f" and l.a[2] in ("depends_on", "working_dirs") and "P17" not in self.props:
                return True
            if cmd and x.k == "pure" and x.a[0] in ("user step", "normalized"):
                return "P17" not in self.props or x.a[1][0].a[0].a[0] != "w"
        return False

    def on_fact(self, E, st, l, n):
        if l.k == "discr" and n is not None:
            x = l.a[0]
            if x.k == "pure" and x.a[0] == "get" and "P15" in self.props and x.a[1][-1].k == "y" and q.mentions(x.a[1][-1], self.cur(st)):
                self.s(st, look=n)
            if x.k == "f" and x.a[2] in ("pre", "post") and x.a[0].k == "pure" and x.a[0].a[0] == "normalized" and x.a[0].a[1][0].a[0].a[0] == "w":
                d = dict(self.g(st, "has"))
                d[x.a[2]] = n
                self.s(st, has=tuple(sorted(d.items())))
            if "P17" in self.props and x.k == "pure" and x.a[0] == "user step" and x.a[1][0].a[0].a[0] != "w" and n == self.vact:
                return False  # the other steps' expansions are followed for P15 and P16
        return True

    def on_opaque(self, E, st, c, l):
        if (c.name or "").endswith("PluginDriver::on_resolve_dynamic_action") and "P15" in self.props:
            self.s(st, res=("asked", l))

    def cur(self, st):
        return tok("user step", self.g(st, "who"), self.g(st, "job"))

    def action_of(self, st):
        return fld(self.cur(st), 0, "Action.0")

    def resolve(self, E, st, c):
        if "P15" not in self.props:
            return
        a = E.deep(st, c.args[1])
        if self.g(st, "job") is None or not self.same(E, st, a, self.action_of(st), "UserActionStep"):
            self.bad(st, "P15", "resolve:arg", "the plugins are asked to resolve %s" % show(a), c)
        if self.g(st, "res") is not None:
            self.bad(st, "P15", "resolve:twice", "the plugins are asked twice to resolve one action", c)
        if self.g(st, "look") != 0:
            self.bad(st, "P15", "resolve:first", "the plugins are asked although no registered action of that name was found missing", c)
        self.did("P15", "resolve")

    def on_lookup(self, E, st, c, root, path, key, found):
        if "P15" in self.props and self.g(st, "job") is not None and "actions" in show(mk("r", root, path)):
            u = Y(self.fo("UserActionStep", self.action_of(st), "uses"))
            k = E.deep(st, key)
            if k is not u:
                self.bad(st, "P15", "lookup:key", "an action is looked up as %s, not as %s" % (show(k), show(u)), c)
            self.s(st, look=None if found is None else int(found))
        return True

    def on_await(self, E, st, l, c):
        r = self.g(st, "res")
        if r is not None and r[0] == "asked" and r[1] is l:
            self.s(st, res=("answered", mk("out", l)))
        return None

    def normalize(self, E, st, c):
        who = self.g(st, "who")
        if "P15" in self.props:
            self.normal(E, st, c, who)
        else:
            for l in [l for l in st.facts if l.k == "discr" and (l.a[0].k == "out" or l.a[0].k == "pure" and l.a[0].a[0] == "get")]:
                del st.facts[l]
        self.s(st, norm="P15" in self.props)
        if who == "w":
            self.s(st, wn=True)
        res = Y(tok("normalized", who, self.g(st, "job") or mk("const", "no job")))
        s2 = st.copy()
        self.s(s2, norm="failed")
        return N.out(E, c, [(st, ok(res)), (s2, err(Y(mk("const", "normalize error"))))])

    def normal(self, E, st, c, who):
        t = E.full(st, c.args[0])
        a = E.deep(st, c.args[1])
        self.did("P15", "normalize")
        if self.g(st, "job") is None or not self.same(E, st, a, self.action_of(st), "UserActionStep"):
            self.bad(st, "P15", "normalize:arg", "an action is expanded for %s" % show(a), c)
        if self.g(st, "norm"):
            self.bad(st, "P15", "normalize:twice", "an action step is expanded twice", c)
        u = Y(self.fo("UserActionStep", self.action_of(st), "uses"))
        ls = [l for l in q.labels(t) if l.k == "pure" and l.a[0] == "get" and l.a[1][-1] is u]
        r = self.g(st, "res")
        if ls:
            self.did("P15", "registered-action")
            if r is not None:
                self.bad(st, "P15", "normalize:plugin", "a registered action is used after the plugins were asked", c)
        elif r is not None and r[0] == "answered" and t.k == "y" and q.mentions(t, r[1]):
            self.did("P15", "plugin-action")
        else:
            self.bad(st, "P15", "normalize:other", "%s expands the step, neither the action registered under its name nor the one a plugin resolved" % show(t), c)

    def same(self, E, st, v, l, adt):
        """v is the value labelled l, or a rebuilt one with the same fields"""
        if v is Y(l):
            return True
        if v.k == "a" and v.a[0] == self.A[adt]["name"]:
            return all(self.opt(E, st, x, fld(l, i, f[0])) for i, (x, f) in enumerate(zip(v.a[2], self.A[adt]["variants"][v.a[1]]["fields"])))
        return False

    def opt(self, E, st, v, l):
        """v equals the (possibly optional) value labelled l"""
        if v is Y(l):
            return True
        d = E.fact(st, mk("discr", l))
        if v is NONE:
            return d == 0
        if v.k == "a" and v.a[0].endswith("option::Option") and v.a[1] == 1:
            return d == 1 and v.a[2][0] is Y(fld(l, 0, "Some.0"))
        if v.k == "k":
            return E.fact(st, l) == v.a[0]
        return False

    # --- iteration
    def is_steps(self, L):
        j = self.g_job
        return j is not None and L is self.fo("UserJob", fld(j, 1, "1"), "steps")

    def witness(self, E, st, L):
        self.g_job = self.g(st, "job")
        return self.is_steps(L) and self.props != {"P15"}

    def on_iter(self, E, st, c, L, e):
        self.g_job = self.g(st, "job")
        if L is self.fo("UserWorkflow", self.uw, "jobs"):
            if self.g(st, "job") is not None and not self.g(st, "ins"):
                self.bad(st, "P17", "job:dropped", "a configured job is not part of the workflow", c)
            if self.g(st, "job") is not None:
                self.clear(st, self.g(st, "job"))
            self.s(st, job=e, who="b", act=None, look=None, res=None, norm=False, ins=e is None, cnt=(), gap=(), started=False, wn=False, has=())
            return True
        if self.is_steps(L):
            self.leave(E, st, c)
            r = self.g(st, "res")
            for t in (self.g(st, "act"), self.g(st, "act") and mk("pure", "normalized", self.g(st, "act").a[1]), r and r[1]):
                if t is not None:
                    self.clear(st, t)
            if e is None:
                self.s(st, act=None, look=None, res=None, norm=False)
                return True
            who = "w" if e.k == "wit" else ("b" if not self.g(st, "started") else "a")
            if who != "w" and self.side not in (None, who):
                return False
            if "P16" not in self.props and who != "w":
                who = "b"
            self.s(st, who=who, look=None, res=None, norm=False)
            if who == "w":
                self.s(st, started=True)
            t = tok("user step", who, self.g(st, "job"))
            self.clear(st, t)
            self.clear(st, tok("normalized", who, self.g(st, "job")))
            self.s(st, act=t)
            return t
        return True

    def clear(self, st, t):
        for l in [l for l in st.facts if q.mentions(l, t)]:
            del st.facts[l]

    def leave(self, E, st, c):
        """the step whose turn it was has been dealt with"""
        t = self.g(st, "act")
        if t is None:
            return
        if "P15" not in self.props:
            return
        isact = E.fact(st, mk("discr", t)) == self.vact
        if isact and self.g(st, "norm") is not True:
            self.bad(st, "P15", "action:skipped", "an action step is passed over without being expanded", c)
        self.did("P15", "step-considered")

    def on_count(self, E, st, c, l):
        s = l.a[0], l.a[1] if len(l.a) > 1 else None
        site = self.site(l)
        old = dict(self.g(st, "cnt"))
        gap = set(self.g(st, "gap"))
        if site in old and old[site] is not None:
            gap.add(site)
        old[site] = l
        self.s(st, cnt=tuple(sorted(old.items(), key=str)), gap=tuple(sorted(gap, key=str)))

    def site(self, l):
        return tuple(str(x) for x in l.a if type(x) is not V)

    # --- building
    def source(self, v):
        """(kind, who, label of the user step) a value comes from"""
        best = None
        for l in q.labels(v):
            chain = []
            x = l
            while x.k == "f":
                chain.append(x)
                x = x.a[0]
            if x.k != "pure" or x.a[0] not in ("user step", "normalized"):
                continue
            who = x.a[1][0].a[0].a[0]
            if x.a[0] == "user step":
                r = ("main", who, x, x)
            else:
                names = [y.a[2] for y in reversed(chain)]
                if not names or names[0] not in ("pre", "run", "post"):
                    continue
                k = chain[-1]
                if names[0] != "run":
                    if len(chain) < 2:
                        continue
                    k = chain[-2]
                r = ("main" if names[0] == "run" else names[0], who, k, x)
            if best is not None and best[2] is not r[2]:
                return ("mixed", who, None, x)
            best = r
        return best

    def on_push(self, E, st, root, path, old, x, c):
        x = E.deep(st, x)
        if x.k == "a" and x.a[0] == self.A["Step"]["name"]:
            src = self.source(self.get("Step", x, "run"))
            if src is None or src[2] is None:
                self.bad(st, "P17", "step:source", "a step is built from %s" % show(x), c)
                return Y(mk("pure", "step", (Y(mk("const", "?")),)))
            self.step(E, st, x, src, old, c)
            t = Y(mk("pure", "step", (Y(mk("const", src[0])), Y(mk("const", src[1])), Y(self.g(st, "job") or mk("const", "no job")))))
            self.clear(st, src[2])
            return ("rep", (("one", t),)) if src[1] != "w" else t
        s = self.source(x) if x.k == "y" else None
        if s is not None and s[2] is not None and x is Y(s[2]) and s[1] != "w":
            if s[0] == "main":
                x = Y(tok("user step", s[1], self.g(st, "job")))  # as good as any other step whose content is not known
            return ("rep", (("one", x),))
        return None

    on_insert = on_push

    def idok(self, st, adt, v, parts):
        return v.k == "a" and v.a[0] == self.A[adt]["name"] and len(v.a[2]) == len(parts) and all(p(x) for p, x in zip(parts, v.a[2]))

    def str_is(self, v, w):
        while v.k == "y" and v is not w and v.a[0].k == "pure" and len(v.a[0].a[1]) == 1 and v.a[0].a[0].startswith(("into:", "display", "to_string")):
            v = v.a[0].a[1][0]
        return v is w

    def wfid(self, E, st, v):
        if self.gid:
            return self.str_is(v, Y(mk("arg", "workflow id")))
        if self.g(st, "idv") is None:
            self.s(st, idv=v)
            return not q.mentions(v, self.uw)
        return v is self.g(st, "idv")

    def step(self, E, st, x, src, old, c):
        g = lambda n: self.get("Step", x, n)
        cmd = fld(src[2], 0, "Command.0")
        job = self.g(st, "job")
        self.did("P17", "step-built")
        f = lambda n: self.fo("UserCommandStep", cmd, n)
        key = Y(fld(job, 0, "0"))
        idx = []
        v = g("id")
        good = self.idok(st, "StepId", v, [lambda y: self.wfid(E, st, y), lambda y: self.str_is(y, key), lambda y: idx.append(y) or True])
        if not good:
            self.bad(st, "P17", "step:id", "a step gets the id %s" % show(v), c)
        else:
            i = idx[0]
            n = len(old.a[0]) if old.k == "v" and all(s[0] == "one" for s in old.a[0]) else None
            if i.k == "y" and i.a[0].k == "call":
                site = self.site(i.a[0])
                cnt = dict(self.g(st, "cnt"))
                if cnt.get(site) is not i.a[0] or site in self.g(st, "gap"):
                    self.bad(st, "P17", "step:index", "the number of a step is not its position among the steps of the job", c)
                cnt[site] = None
                self.s(st, cnt=tuple(sorted(cnt.items(), key=str)))
            elif not (i.k == "k" and i.a[0] == n or i.k == "y" and i.a[0].k == "pure" and i.a[0].a[0] == "len" and i.a[0].a[1][0] is E.deep(st, old)):
                self.bad(st, "P17", "step:index", "the number of a step is %s, not its position among the steps of the job" % show(i), c)
        if src[1] != "w" or "P17" not in self.props:
            return
        for n in ("name", "on"):
            if not self.opt(E, st, g(n), f(n)):
                self.bad(st, "P17", "step:" + n, "a step gets %s = %s" % (n, show(g(n))), c)
        if g("run") is not Y(f("run")):
            self.bad(st, "P17", "step:run", "a step gets run = %s" % show(g("run")), c)
        for n, dflt in (("continue_on_error", K(0)), ("environments", hmap(None, ())), ("secrets", seq(()))):
            d = E.fact(st, mk("discr", f(n)))
            s = fld(f(n), 0, "Some.0")
            h = g(n)
            if not (d == 1 and (h is Y(s) or h.k == "k" and E.fact(st, s) == h.a[0]) or d == 0 and h is dflt):
                self.bad(st, "P17", "step:" + n, "a step gets %s = %s where the configuration %s" % (n, show(h), {1: "sets it", 0: "leaves it out"}.get(d, "was not read")), c)
        t = g("timeout")
        d = E.fact(st, mk("discr", f("timeout")))
        arg = t.a[0].a[1][0] if t.k == "y" and t.a[0].k == "pure" and t.a[0].a[0] == "duration" else None
        if not (d == 1 and arg is Y(fld(f("timeout"), 0, "Some.0")) or d == 0 and (arg is S("60m") or arg is S("1h") or self.duration(t) == 3600)):
            self.bad(st, "P17", "step:timeout", "a step gets the timeout %s" % show(t), c)
        h = g("container")
        jc = self.fo("UserJob", fld(job, 1, "1"), "container")
        dc, dj = E.fact(st, mk("discr", f("container"))), E.fact(st, mk("discr", jc))
        if dc == 1:
            good = self.container(E, st, h, fld(f("container"), 0, "Some.0"))
        elif dc == 0 and dj == 1:
            good = self.container(E, st, h, fld(jc, 0, "Some.0"))
        else:
            good = dc == 0 and dj == 0 and h is NONE
        if not good:
            self.bad(st, "P17", "step:container", "a step %s gets the container %s" % (
                "with its own container" if dc else "of a job with a container" if dj else "without container", show(h)), c)

    def duration(self, t):
        if t.k == "y" and t.a[0].k == "pure" and t.a[0].a[0].endswith("from_secs") and t.a[0].a[1][0].k == "k":
            return t.a[0].a[1][0].a[0]
        return None

    def container(self, E, st, h, l):
        if not (h.k == "a" and h.a[1] == 1):
            return False
        v = h.a[2][0]
        vs = [x["name"] for x in self.A["Container"]["variants"]]
        d = E.fact(st, mk("discr", l))
        if d is None:
            return False
        if vs[d] == "Options":
            o = fld(l, 0, "Options.0")
            return v is Y(o) or v.k == "a" and all(self.opt(E, st, x, fld(o, i, f[0])) for i, (x, f) in enumerate(
                zip(v.a[2], self.A["ContainerOptions"]["variants"][0]["fields"])))
        g = lambda n: self.get("ContainerOptions", v, n)
        return v.k == "a" and g("name") is Y(fld(l, 0, "Name.0")) and all(
            x is NONE for f, x in zip(self.A["ContainerOptions"]["variants"][0]["fields"], v.a[2]) if f[0] != "name")

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        v = E.deep(st, val)
        if v.k != "a" or v.a[0] != self.A["Job"]["name"]:
            return None
        job = self.g(st, "job")
        if job is None:
            self.bad(st, "P17", "job:source", "a job appears that is not configured: %s" % show(v), c)
            return None
        g = lambda n: self.get("Job", v, n)
        u = fld(job, 1, "1")
        k = Y(fld(job, 0, "0"))
        f = lambda n: self.fo("UserJob", u, n)
        self.did("P17", "job-built")
        if not self.str_is(key, k) or not self.idok(st, "JobId", g("id"), [lambda y: self.wfid(E, st, y), lambda y: self.str_is(y, k)]):
            self.bad(st, "P17", "job:id", "a job is put under %s with the id %s" % (show(key), show(g("id"))), c)
        for n in ("name", "on"):
            if not self.opt(E, st, g(n), f(n)):
                self.bad(st, "P17", "job:" + n, "a job gets %s = %s" % (n, show(g(n))), c)
        for n, un in (("depends_on", "depends_on"), ("working_directories", "working_dirs")):
            d = E.fact(st, mk("discr", f(un)))
            if not (d == 1 and g(n) is Y(fld(f(un), 0, "Some.0")) or d == 0 and g(n) is seq(())):
                self.bad(st, "P17", "job:" + n, "a job gets %s = %s" % (n, show(g(n))), c)
        if self.g(st, "ins"):
            self.bad(st, "P17", "job:twice", "a job is put into the workflow twice", c)
        self.s(st, ins=True)
        self.order(E, st, g("steps"), c)
        return Y(mk("pure", "job", (Y(mk("const", "built")),)))

    RANK = {"pre": 0, "main": 1, "post": 2}

    def order(self, E, st, v, c):
        """the steps of a job: pre-steps, the steps themselves, post-steps in reverse, each exactly once"""
        job = self.g(st, "job")
        if v.k != "v":
            self.bad(st, "P16", "steps:other", "the steps of a job are %s" % show(v), c)
            return
        flat = []
        self.flatten(v.a[0], flat)
        items = []
        for ks in flat:
            its = []
            for x in ks:
                if x.k != "y" or x.a[0].k != "pure" or x.a[0].a[0] != "step" or len(x.a[0].a[1]) < 3:
                    self.bad(st, "P17", "steps:foreign", "a job contains %s" % show(x), c)
                    return
                if x.a[0].a[1][2] is not Y(job):
                    self.bad(st, "P17", "steps:other-job", "a job contains steps of another job", c)
                    return
                its.append((x.a[0].a[1][0].a[0].a[0], x.a[0].a[1][1].a[0].a[0]))
            items.append(its)
        self.did("P16", "job-steps")
        w = [(n, k) for n, its in enumerate(items) for k, who in its if who == "w"]
        for k in ("pre", "main", "post"):
            pos = [n for n, kk in w if kk == k]
            must = self.must(E, st, k)
            if len(pos) > 1 or len(pos) == 0 and must or len(pos) == 1 and must is False:
                self.bad(st, "P16", "steps:count:" + k, "a %s step of a configured step occurs %d times in the job" % ({"main": "(run)"}.get(k, k), len(pos)), c)
            if len(pos) == 1:
                self.did("P16", "step:" + k)
                if not isinstance(flat[pos[0]], tuple) or len(flat[pos[0]]) != 1:
                    self.bad(st, "P16", "steps:unordered:" + k, "the order of the steps of a job is lost", c)
                    return
        if {"P16"} & self.props:
            seen = {}
            for n, its in enumerate(items):
                for k, who in its:
                    for m in range(n + 1):
                        for k2, who2 in items[m]:
                            if (m < n or len(its) > 1) and not self.before_ok(k2, who2, k, who):
                                self.bad(st, "P16", "steps:order:%s%s-%s%s" % (k2, who2, k, who), "a %s step of %s comes before a %s step of %s" % (
                                    k2, NAMES[who2], k, NAMES[who]), c)
        self.did("P16", "order-checked")

    def before_ok(self, k1, w1, k2, w2):
        if self.RANK[k1] != self.RANK[k2]:
            return self.RANK[k1] < self.RANK[k2]
        if "w" not in (w1, w2) or w1 == w2:
            return True
        o = {"b": 0, "w": 1, "a": 2}
        return (o[w1] < o[w2]) != (k1 == "post")

    def flatten(self, segs, out):
        for s in segs:
            if s[0] == "one":
                out.append((s[1],))
            elif s[0] in ("rep", "alt"):
                sub = []
                self.flatten(s[1], sub)
                out.append(tuple(x for y in sub for x in y))
            else:
                out.append((Y(s[1]),))

    def must(self, E, st, kind):
        """is a step of this kind due for the followed user step?"""
        if not self.g(st, "started"):
            return False
        if kind == "main":
            return True
        return self.g(st, "wn") and dict(self.g(st, "has")).get(kind) != 0

    # --- end
    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        if v.k == "a" and v.a[1] == 0:
            w = v.a[2][0]
            g = lambda n: self.get("Workflow", w, n)
            f = lambda n: self.fo("UserWorkflow", self.uw, n)
            self.did("P17", "workflow-built")
            if not self.idok(st, "WorkflowId", g("id"), [lambda y: self.wfid(E, st, y)]):
                self.bad(st, "P17", "workflow:id", "the workflow gets the id %s" % show(g("id")))
            for n in ("name", "on"):
                if not self.opt(E, st, g(n), f(n)):
                    self.bad(st, "P17", "workflow:" + n, "the workflow gets %s = %s" % (n, show(g(n))))
            j = g("jobs")
            if not (j.k == "hm" and j.a[0] is None and all(e[1].k == "y" and e[1].a[0].k == "pure" and e[1].a[0].a[0] == "job" for e in j.a[1])):
                self.bad(st, "P17", "workflow:jobs", "the workflow's jobs are %s" % show(j))
            if not self.g(st, "ins") or self.g(st, "job") is not None:
                self.bad(st, "P17", "workflow:early", "the workflow is returned before every job was built")
            return
        self.did("P15", "error:%s" % self.why(E, st, v))

    def why(self, E, st, v):
        t = self.g(st, "act")
        if t is not None and E.fact(st, mk("discr", t)) == self.vact:
            r = self.g(st, "res")
            if self.g(st, "norm") == "failed":
                return "expansion"
            if self.g(st, "norm"):
                return "after"
            if r is None or r[0] != "answered" or E.fact(st, mk("discr", r[1])) != 0:
                self.bad(st, "P15", "error:early", "building fails for an action that was not looked for everywhere (%s)" % show(v))
            return "unresolved"
        return "other"

    def on_panic(self, E, st, what, line):
        self.bad(st, "P17", "panic", "building a workflow can panic: %s" % what)


NAMES = {"w": "a step", "b": "an earlier step", "a": "a later step"}


def run(P, R, floors):
    bs = q.method(P, "astro_run", "WorkflowBuilder", "build")
    if not R.need(bs, "WorkflowBuilder::build"):
        return
    for a in ("Step", "Job", "Workflow", "UserStep", "UserJob", "UserWorkflow", "UserCommandStep", "UserActionStep", "Container", "ContainerOptions"):
        if not R.need(q.adt(P, a, "astro_run"), a):
            return
    B = "WorkflowBuilder"
    gid, conf = (B, "id", [Y(mk("arg", "workflow id"))]), (B, "config", [Y(mk("arg", "config"))])
    start = [("Workflow", "builder", [])]
    for what, steps in (("id and config", start + [gid, conf]), ("config and id", start + [conf, gid]), ("config only", start + [conf])):
        b = chain(P, R, what, None, steps)
        if b is None or R.pid != "P17" and what != "id and config":
            continue
        if what != "config and id":
            first = b
        elif b is first:
            continue
        for side in SIDES[R.pid] if R.tier == "quick" else (None,):
            rule = ParseRule(P, {R.pid}, side, gid in steps)
            R.run(P, rule, bs[0], args=[b, Y(mk("arg", "astro_run"))], is_async=True, auto=rule.start(), budget=30000000 if R.tier == "thorough" else 10000000)
    for n, k in floors.items():
        R.floor(None, n, k)


SIDES = {"P15": (None,), "P16": ("b", "a"), "P17": ("b",)}
