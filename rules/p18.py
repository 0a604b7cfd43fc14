"""P18: a configuration is accepted only if every job of it can be run."""
from ar import q
from ar import natives as N
from ar.vals import *
from . import wf
from .common import chain

RULE = ("Every conversion of text into a UserWorkflow is interpreted path-sensitively over its MIR (typestate dataflow to a fixpoint) with one arbitrary job W and one arbitrary dependency D of W as "
        "witnesses; each accepting path must have established that there are jobs, that W has steps, that D is a job, and that every job entered a set of resolved jobs only after all its "
        "dependencies were in it (which gives a topological order). Building a workflow must go through one of these conversions.")
ASSUME = ["serde_yaml reports malformed documents as errors", "sets and maps of the standard library"]

SETS = ("std::collections::hash::set::HashSet::", "alloc::collections::btree::set::BTreeSet::")


class Rule(wf.AutoRule):
    coarse = False
    fields = ("job", "dep", "ready", "grown", "full")
    init = (None, None, None, True, False)

    def __init__(self, P, build):
        super().__init__({"P18"})
        self.P = P
        self.build = build
        self.A = {n: q.adt(P, n, "astro_run") for n in ("UserWorkflow", "UserJob")}
        self.uw = mk("arg", "user workflow")
        self.jobs = wf.field_of(P, self.A["UserWorkflow"], self.uw, "jobs")

    def start(self):
        return tuple(self.init)

    def is_stop(self, c):
        return self.build

    def f(self, job, name):
        return wf.field_of(self.P, self.A["UserJob"], fld(job, 1, "1"), name)

    def deps(self, job):
        return fld(self.f(job, "depends_on"), 0, "Some.0")

    # --- parsing
    def on_call(self, E, st, c):
        n = c.name or ""
        dt = c.destty["s"] if c.destty is not None else ""
        if n.startswith("serde_yaml::") and n.rsplit("::", 1)[1] in ("from_str", "from_slice", "from_reader", "from_value") and not n.endswith("Value::from_str"):
            if self.build and not any(self.conv(f) for f in st.fr):
                if "UserWorkflow" in dt:
                    self.bad(st, "P18", "build:raw", "a workflow is built from a configuration that did not go through the checked conversion", c)
            if "UserWorkflow" in dt:
                self.did("P18", "parsed")
                if not q.mentions(E.deep(st, c.args[0]), mk("arg", "config")):
                    self.bad(st, "P18", "parse:other", "the configuration is parsed from %s" % show(E.deep(st, c.args[0])), c)
                return N.out(E, c, [(st.copy(), ok(Y(self.uw))), (st, err(Y(mk("const", "parse error"))))])
        if self.build and n == "core::convert::TryFrom::try_from" and "UserWorkflow" in dt:
            self.did("P18", "build-converts")
            if not q.mentions(E.deep(st, c.args[0]), mk("arg", "config")):
                self.bad(st, "P18", "build:other", "the workflow is built from %s" % show(E.deep(st, c.args[0])), c)
            return N.out(E, c, [(st, err(Y(mk("const", "config error"))))])
        if not self.build and n.startswith(SETS):
            return self.setop(E, st, c, n.rsplit("::", 1)[1])
        return None

    def conv(self, f):
        return f.body.trait == "core::convert::TryFrom" or (f.body.n or "").endswith("TryFrom::try_from")

    # --- the set of resolved jobs
    def key_of(self, E, st, v):
        v = E.deep(st, v)
        while v.k == "y" and v.a[0].k == "pure" and len(v.a[0].a[1]) == 1 and v.a[0].a[0].startswith(("into:", "display", "to_string")):
            v = v.a[0].a[1][0]
        return v

    def setop(self, E, st, c, m):
        if m in ("new", "with_capacity"):
            return N.out(E, c, [(st, Y(mk("const", "set")))])
        v = E.deep(st, c.args[0])
        if v is not Y(mk("const", "set")):
            return None
        if m == "contains":
            k = self.key_of(E, st, c.args[1])
            s2 = st.copy()
            self.s(s2, ready=tuple(sorted(set(self.g(st, "ready") or ()) | {k}, key=show)))
            return N.out(E, c, [(s2, TRUE), (st, FALSE)])
        if m == "insert":
            k = self.key_of(E, st, c.args[1])
            job = self.g(st, "job")
            self.did("P18", "resolved")
            if job is None or k is not Y(fld(job, 0, "0")):
                self.s(st, grown=False)
            elif not self.deps_in(E, st, job):
                self.s(st, grown=False)
            s2 = st.copy()
            return N.out(E, c, [(s2, TRUE), (st, FALSE)])
        if m == "len":
            return N.out(E, c, [(st, Y(E.fresh(st, c, "call", "set size")))])
        if m == "is_empty":
            return N.out(E, c, [(st.copy(), TRUE), (st, FALSE)])
        self.s(st, grown=False)
        return None

    def deps_in(self, E, st, job):
        d = E.fact(st, mk("discr", self.f(job, "depends_on")))
        if d == 0:
            return True
        D = self.deps(job)
        if self.empty(E, st, D) == 1:
            return True
        return Y(mk("wit", D)) in (self.g(st, "ready") or ())

    def empty(self, E, st, l):
        n = mk("pure", "len", (Y(l),))
        e = E.fact(st, mk("pure", "empty", (Y(l),)))
        z = E.fact(st, n)
        if e == 0 or E.excluded(st, n, 0) or type(z) is int and z > 0:
            return 0
        return 1 if e == 1 or z == 0 else None

    def is_size(self, v):
        return v.k == "y" and v.a[0].k == "call" and "set size" in [x for x in v.a[0].a if type(x) is str]

    def is_count(self, v):
        return v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "len" and v.a[0].a[1][0] is Y(self.jobs)

    def on_fact(self, E, st, l, n):
        if l.k == "pure" and len(l.a[1]) == 2 and self.g(st, "grown"):
            a, b = l.a[1]
            o = l.a[0]
            if o == "eq" and n == 1 and (self.is_size(a) and self.is_count(b) or self.is_size(b) and self.is_count(a)):
                self.s(st, full=True)
            if o == "lt" and n == 0 and self.is_size(a) and self.is_count(b):
                self.s(st, full=True)
        return True

    # --- iteration
    def witness(self, E, st, L):
        if L is self.jobs:
            return True
        j = self.g(st, "job")
        return j is not None and L is self.deps(j)

    def on_iter(self, E, st, c, L, e):
        if L is self.jobs:
            self.s(st, job=e, ready=None)
        return True

    # --- end
    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        if self.build or v.k != "a" or v.a[1] != 0:
            return
        self.did("P18", "accepted")
        if v.a[2][0] is not Y(self.uw):
            self.bad(st, "P18", "accept:other", "the conversion returns %s" % show(v.a[2][0]))
            return
        emp = lambda l: self.empty(E, st, l)
        if emp(self.jobs) != 0:
            self.bad(st, "P18", "accept:no-jobs", "a configuration without jobs is accepted")
            return
        w = mk("wit", self.jobs)
        if emp(self.f(w, "steps")) != 0:
            self.bad(st, "P18", "accept:no-steps", "a configuration with a job without steps is accepted")
        d = E.fact(st, mk("discr", self.f(w, "depends_on")))
        D = self.deps(w)
        if d != 0 and emp(D) != 1:
            x = Y(mk("wit", D))
            hit = any(l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1] == (Y(self.jobs), x) and (
                f == ("=", 1) or f[0] == "!" and 0 in f[1]) for l, f in st.facts.items())
            if d != 1 or not hit:
                self.bad(st, "P18", "accept:unknown-dep", "a configuration is accepted in which a job depends on something that was not found among the jobs")
        if not self.g(st, "full"):
            self.bad(st, "P18", "accept:cycle", "a configuration is accepted without every job having been resolved after its dependencies, so jobs can wait for each other forever")

    def on_panic(self, E, st, what, line):
        self.bad(st, "P18", "panic", "checking a configuration can panic: %s" % what)


def run(P, R):
    a = q.adt(P, "UserWorkflow", "astro_run")
    bs = q.method(P, "astro_run", "WorkflowBuilder", "build")
    if not R.need(a, "UserWorkflow") or not R.need(bs, "WorkflowBuilder::build"):
        return
    convs = [b for n in P.byname if n.endswith("TryFrom::try_from") for b in P.byname[n] if (b.selfty or "").endswith("UserWorkflow")]
    if not R.need(convs, "TryFrom<text> for UserWorkflow"):
        return
    for b in convs:
        r = Rule(P, False)
        R.run(P, r, b, args=[Y(mk("arg", "config"))], is_async=False, auto=r.start())
        R.floor(r, "accepted", 1)
    w = chain(P, R, "builder", None, [("Workflow", "builder", []), ("WorkflowBuilder", "config", [Y(mk("arg", "config"))])])
    if w is not None:
        r = Rule(P, True)
        R.run(P, r, bs[0], args=[w, Y(mk("arg", "astro_run"))], is_async=True, auto=r.start())
        R.floor(r, "build-converts", 1)
