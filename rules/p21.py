"""P21: conditions are evaluated for the run's own trigger event, and an evaluation that is not possible lets the run go on."""
from ar import q
from ar import natives as N
from ar.vals import *
from . import wf
from .common import calls_one

RULE = ("ConditionMatcher::is_match is interpreted path-sensitively over its MIR (typestate dataflow to a fixpoint) for an arbitrary matcher and condition. Requests to GitHub are uninterpreted but keep "
        "their arguments, so that the payload a condition is evaluated on can be traced to the matcher's own event and to the reply for the commit or pull request of that event, requested with the "
        "matcher's own authorization; `true` without evaluation needs a missing event or authorization, or a failed request; `false` always needs an evaluation.")
ASSUME = ["octocrate sends the request it was asked for", "the payload cell starts empty (established where it is created)"]

API = ("get_commit", "list_files", "get_repo_installation", "create_installation_access_token", "send", "with_token", "shared")


class Rule(wf.AutoRule):
    coarse = False
    fields = ("failed", "asked")
    init = (False, False)

    def __init__(self, P):
        super().__init__({"P21"})
        self.P = P
        A = lambda n: q.adt(P, n, "astro_run")
        self.A = {n: A(n) for n in ("ConditionMatcher", "ConditionPayload", "TriggerEvent", "GithubAuthorization", "Condition")}
        self.me, self.cond = mk("arg", "self"), mk("arg", "condition")
        one = lambda fr: [f[0] for f in self.A["ConditionMatcher"]["variants"][0]["fields"] if fr in f[1]][0]
        f = lambda a, l, n: wf.field_of(P, self.A[a], l, n)
        self.auth = f("ConditionMatcher", self.me, one("GithubAuthorization"))
        self.evo = f("ConditionMatcher", self.me, one("TriggerEvent"))
        self.ev = fld(self.evo, 0, "Some.0")
        self.cell = f("ConditionMatcher", self.me, one("ConditionPayload"))
        self.e = lambda n: Y(f("TriggerEvent", self.ev, n))
        self.adt = self.A["ConditionPayload"]

    def start(self):
        return tuple(self.init)

    def text(self, v):
        while v.k == "y" and v.a[0].k == "pure" and len(v.a[0].a[1]) == 1 and v.a[0].a[0].startswith(("into:", "display", "to_string")):
            v = v.a[0].a[1][0]
        return v

    def on_call(self, E, st, c):
        n = c.name or ""
        b = E.P.bodies.get(c.id)
        if n.startswith("octocrate"):
            m = n.rsplit("::", 1)[1]
            if m == "new":
                m = n.rsplit("::", 2)[1]
            self.did("P21", "request:" + m)
            return N.out(E, c, [(st, Y(mk("pure", m, tuple(E.deep(st, a) for a in c.args))))])
        if b is not None and b.crate == "astro_run" and n.endswith("Condition::is_match"):
            p = E.deep(st, c.args[1])
            if E.deep(st, c.args[0]) is not Y(self.cond):
                self.bad(st, "P21", "evaluate:other", "the condition evaluated is %s" % show(E.deep(st, c.args[0])), c)
            self.payload(E, st, p, c)
            self.s(st, asked=True)
            return N.out(E, c, [(st, Y(mk("pure", "evaluated", (p,))))])
        return None

    def payload(self, E, st, p, c):
        """is p a payload for this matcher's event?"""
        self.did("P21", "payload")
        if p.k == "y" and q.mentions(p, self.cell):
            return
        if p.k != "a" or p.a[0] != self.adt["name"]:
            self.bad(st, "P21", "payload:other", "a condition is evaluated on %s" % show(p), c)
            return
        g = {f[0]: x for f, x in zip(self.adt["variants"][0]["fields"], p.a[2])}
        for n in ("event", "branch"):
            if self.text(g[n]) is not self.e(n) and not (n == "event" and g[n].k == "s" and E.fact(st, self.e(n).a[0]) is g[n]):
                self.bad(st, "P21", "payload:" + n, "the %s of the payload is %s" % (n, show(g[n])), c)
        kind = E.fact(st, self.e("event").a[0])
        fs = g["paths"]
        want = {S("push"): ("get_commit", "sha"), S("pull_request"): ("list_files", "pr_number")}.get(kind)
        if want is None:
            self.bad(st, "P21", "payload:kind", "changed files are determined for an event of another kind", c)
            return
        reqs = [l for l in self.pure(fs) if l.a[0] in ("get_commit", "list_files")]
        if len(reqs) != 1 and fs is not seq(()):
            self.bad(st, "P21", "payload:paths", "the changed paths are %s" % show(fs), c)
            return
        if not reqs:
            ls = [l for l, x in st.facts.items() if any(y.a[0] == want[0] for y in self.pure(Y(l))) and (
                l.k == "pure" and l.a[0] == "empty" and x == ("=", 1) or l.k == "discr" and l.a[0].k != "out" and x == ("=", 0))]
            if not ls:
                self.bad(st, "P21", "payload:no-paths", "the changed paths of a %s event are taken to be none" % kind.a[0], c)
            return
        r = reqs[0]
        a = [self.text(x) for x in r.a[1]]
        key = self.e(want[1])
        if want[1] == "pr_number":
            key = Y(fld(key.a[0], 0, "Some.0"))
        if r.a[0] != want[0] or a[1:4] != [self.e("repo_owner"), self.e("repo_name"), key]:
            self.bad(st, "P21", "payload:request:" + want[0], "for a %s event the changed paths come from %s" % (kind.a[0], show(Y(r))), c)
        self.elements(E, st, fs, c)
        self.token(E, st, a[0], c)

    def elements(self, E, st, v, c):
        segs = list(v.a[0]) if v.k == "v" else None
        all_ = v.k != "v"
        while segs:
            s = segs.pop()
            if s[0] in ("rep", "alt"):
                segs += s[1]
            elif s[0] == "one":
                x = s[1]
                if any(l.k == "wit" for l in q.labels(x)):
                    all_ = True
                if not (x.k == "y" and x.a[0].k == "f" and x.a[0].a[2] == "filename"):
                    self.bad(st, "P21", "payload:file", "a changed path is %s" % show(x), c)
        if not all_:
            self.bad(st, "P21", "payload:files-lost", "not every changed file becomes a changed path", c)
        if v.k != "v" and not (v.k == "y" and v.a[0].k in ("pure",)):
            self.bad(st, "P21", "payload:files", "the changed paths are %s" % show(v), c)

    def pure(self, v):
        return [l for l in q.labels(v) if l.k == "pure"]

    def token(self, E, st, api, c):
        """the API used is authorized with this matcher's authorization, for this repository"""
        vs = [v["name"] for v in self.A["GithubAuthorization"]["variants"]]
        a = fld(self.auth, 0, "Some.0")
        d = E.fact(st, mk("discr", a))
        ls = self.pure(api)
        names = {l.a[0] for l in ls}
        if d is None:
            self.bad(st, "P21", "api:unknown", "the request does not depend on the kind of authorization", c)
        elif vs[d] == "PersonalAccessToken":
            self.did("P21", "token")
            if not any(l.a[0] == "PersonalAccessToken" and self.text(l.a[1][0]) is Y(fld(a, 0, "PersonalAccessToken.0")) for l in ls) or "create_installation_access_token" in names:
                self.bad(st, "P21", "api:token", "with a personal token the request is authorized by %s" % show(api), c)
        else:
            self.did("P21", "app")
            f = [[x[0] for x in v["fields"]] for v in self.A["GithubAuthorization"]["variants"] if v["name"] == vs[d]][0]
            want = [Y(fld(a, i, "%s.%s" % (vs[d], n))) for i, n in enumerate(f)]
            good = any(l.a[0] == "AppAuthorization" and [self.text(x) for x in l.a[1]] == want for l in ls)
            inst = [l for l in ls if l.a[0] == "get_repo_installation"]
            acc = [l for l in ls if l.a[0] == "create_installation_access_token"]
            good = good and len(inst) == 1 and len(acc) == 1 and [self.text(x) for x in inst[0].a[1][1:]] == [self.e("repo_owner"), self.e("repo_name")]
            good = good and acc[0].a[1][1].k == "y" and acc[0].a[1][1].a[0].k == "f" and acc[0].a[1][1].a[0].a[2] == "id" and inst[0] in self.pure(acc[0].a[1][1])
            if not good:
                self.bad(st, "P21", "api:app", "with an app the request is authorized by %s" % show(api), c)

    def witness(self, E, st, L):
        return any(x.a[0] in ("get_commit", "list_files") for x in self.pure(Y(L)))

    def on_fact(self, E, st, l, n):
        if l.k == "discr" and n == 1 and l.a[0].k == "out":
            self.s(st, failed=True)
        return True

    def on_write(self, E, st, root, path, v, line):
        v = E.deep(st, v)
        if v.k == "a" and v.a[1] == 1 and v.a[2] and v.a[2][0].k == "a" and v.a[2][0].a[0] == self.adt["name"] and type(root) is tuple and root[0] == "S":
            self.did("P21", "cached")
            self.payload(E, st, v.a[2][0], None)

    def on_exit(self, E, st, v):
        v = E.simp(st, E.deep(st, v))
        self.did("P21", "exit")
        if v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "evaluated":
            self.did("P21", "evaluated")
            return
        if v is TRUE:
            d, e = E.fact(st, mk("discr", self.auth)), E.fact(st, mk("discr", self.evo))
            if d == 0 or e == 0:
                self.did("P21", "not-applicable")
                return
            self.did("P21", "open")
            k = E.fact(st, self.e("event").a[0])
            kinds = (S("push"), S("pull_request"))
            other = k is not None and k not in kinds or k is None and all(E.excluded(st, self.e("event").a[0], x) for x in kinds)
            if not self.g(st, "failed") and not other and E.fact(st, mk("discr", self.e("pr_number").a[0])) != 0:
                self.bad(st, "P21", "true:unevaluated", "a condition counts as matched although there are an event and an authorization and nothing failed")
            return
        self.bad(st, "P21", "answer:other", "the answer is %s without evaluating the condition" % show(v))

    def on_panic(self, E, st, what, line):
        self.bad(st, "P21", "panic", "evaluating a condition can panic: %s" % what)


def run(P, R):
    bs = q.method(P, "astro_run", "ConditionMatcher", "is_match")
    if not R.need(bs, "ConditionMatcher::is_match"):
        return
    r = Rule(P)
    R.run(P, r, bs[0], args=[Y(r.me), Y(r.cond)], auto=r.start())
    for x in (calls_one(P, R, "ConditionMatcher", "new", [Y(mk("arg", "event")), Y(mk("arg", "auth"))]) or Nothing).exits:
        cell = [y for f, y in zip(r.A["ConditionMatcher"]["variants"][0]["fields"], x.v.a[2]) if "ConditionPayload" in f[1]] if x.v.k == "a" else []
        R.ob("starts-empty")
        if not cell or NONE not in parts_of(cell[0]):
            R.violation("new:cell", "a new matcher starts with the payload %s" % (show(cell[0]) if cell else show(x.v)))
    for n, k in {"evaluated": 2, "not-applicable": 2, "open": 2, "token": 2, "app": 2, "cached": 1}.items():
        R.floor(r, n, k)


class Nothing:
    exits = ()


def parts_of(v, n=6):
    r = [v]
    if n:
        for x in v.a:
            for y in x if type(x) is tuple else (x,):
                if type(y) is V:
                    r += parts_of(y, n - 1)
    return r
