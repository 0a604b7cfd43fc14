"""The remote runner: client and server (P24-P31)."""
import platform
import re
from ar import q
from ar.summ import MapSummary
from ar.vals import *
from . import wf
from .common import chain, same_as

CR = "astro_run_remote_runner"
CLIENT, SERVER = "AstroRunRemoteRunnerClient", "AstroRunRemoteRunnerServer"
RUNNER = wf.RUNNER
PLUGINS = "astro_run::plugins::plugin_driver::PluginDriver::"
SCHED = "astro_run_scheduler::Scheduler::"
GRPC = "remote_runner_client::RemoteRunnerClient::"
SENDER = "astro_run::stream::StreamSender::"
RECV = "tokio::sync::broadcast::Receiver::recv"
SEND = "tokio::sync::broadcast::Sender::send"
SUB = "tokio::sync::broadcast::Sender::subscribe"
ASSUME = ["gRPC delivers each request once and each stream item once and in order, with equal content (P41 for the wire structs)",
          "the generated client and server code of tonic calls the method it is named after",
          "tokio's broadcast channel hands every receiver each event sent after it subscribed, or tells it that it lags"]

me = mk("arg", "self")


def inner(v):
    """a request or response message, unwrapped"""
    return v.a[2][0] if v.k == "a" and v.a[0] == "tonic::Message" else v


def parts(P, ty, frag):
    """names of the fields of a struct of the remote crate whose type contains frag"""
    a = q.adt(P, ty, CR)
    return [f[0] for f in a["variants"][0]["fields"] if frag in f[1]] if a else []


def bare(s):
    """a type without the paths (crates name their own types without the crate)"""
    return re.sub(r"(\w+::)+", "", s)


def argty(b, i):
    return bare(b.tys[b.locals[i + 1][0]]["s"])


def hooks(P):
    """the hooks of the Runner trait that announce an event: {name: type of the event}"""
    r = {}
    for h in sorted(P.traits.get("astro_run::runner::Runner", {})):
        if h.startswith("on_") and h != "on_before_run_step":
            bs = q.method(P, "astro_run", "PluginDriver", h)
            if bs:
                r[h] = argty(bs[0], 1)
    return r


def base(v, name):
    """v is the field `name` of self, however it is wrapped"""
    return v.k == "y" and v.a[0].k == "f" and v.a[0].a[2] == name and v.a[0].a[0] is me


def server(P, m):
    for (t, a), ms in P.impls.items():
        if a.endswith("::" + SERVER) and m in ms and ms[m] in P.bodies and a.startswith(CR) and t.endswith("::RemoteRunner"):
            return P.bodies[ms[m]]
    return None


class Sum(MapSummary):
    """summary watching calls of hooks, grpc methods, the event channel and signals"""
    names = (RUNNER, PLUGINS, SCHED, SEND, GRPC, "astro_run::signals::signal::AstroRunSignal::")

    def __init__(self, name):
        super().__init__(watch=self.tagof, name=name)

    def tagof(self, E, st, c):
        n = c.name or ""
        for p in self.names:
            if p in n:
                return n
        return None


def summary(P, R, b, args):
    r = Sum(b.n)
    R.run(P, r, b, args=[Y(a) for a in args], is_async=True, auto=())
    for w, p in r.panics:
        R.violation("panic:" + b.n.rsplit("::", 1)[-1], "%s can panic: %s" % (b.n, w), path=p)
    return r


# ------------------------------------------------------------------------------------------------ client hooks
def client_hooks(P, R, what):
    """what: 'scheduler' | 'event'"""
    sch, ev = parts(P, CLIENT, "dyn astro_run_scheduler::Scheduler"), parts(P, CLIENT, "ProtocolEvent")
    if not R.need(sch, "the client's scheduler") or not R.need(ev, "the client's event channel"):
        return
    pe = q.adt(P, "ProtocolEvent", "astro_run_protocol")
    shooks = [h for h in P.traits.get("astro_run_scheduler::Scheduler", {}) if h.startswith("on_")]
    ra = q.adt(P, "RunEvent", "astro_run")
    R.note("scheduler_hooks", shooks)
    hs = hooks(P)
    if len(shooks) < 6 or len(hs) < 8:
        R.violation("hooks", "only %d scheduler hooks and %d runner hooks" % (len(shooks), len(hs)))
    x = mk("arg", "event")
    for h, ty in hs.items():
        bs = q.impl_of(P, "Runner", CLIENT, h)
        if not bs:
            R.violation("missing:" + h, "the remote runner's client does not implement %s, so nothing of that event is passed on" % h)
            continue
        r = summary(P, R, bs[0], [me, x])
        k = [i for i, v in enumerate(pe["variants"]) if len(v["fields"]) == 1 and bare(v["fields"][0][1]) == ty]
        for e in r.exits:
            tell = [c for c in e.calls() if c[0].startswith(SCHED)]
            sent = [c for c in e.calls() if c[0] == SEND]
            if what == "scheduler":
                R.ob("hook-paths")
                src = Y(wf.field_of(P, ra, x, "source")) if ty.startswith("RunEvent<") else Y(x)
                want = [(SCHED + h, src)] if h in shooks else []
                got = [(c[0], c[1][1]) for c in tell]
                if got != want or any(not base(c[1][0], sch[0]) for c in tell):
                    R.violation("tell:" + h, "on %s the scheduler is told %s" % (h, ", ".join("%s(%s)" % (n.rsplit("::", 1)[-1], show(v)) for n, v in got) or "nothing"), path=e.path)
                elif want:
                    R.ob("told:" + h)
            else:
                want = [mk("a", pe["name"], i, (Y(x),)) for i in k]
                got = [c[1][1] for c in sent]
                same = len(got) == 1 and len(k) == 1 and got[0].k == "a" and got[0].a[:2] == want[0].a[:2] and same_as(got[0].a[2][0], x)
                if not same or any(not base(c[1][0], ev[0]) for c in sent):
                    R.violation("sent:" + h, "on %s the client sends %s to the runners" % (h, ", ".join(map(show, got)) or "nothing"), path=e.path)
                else:
                    R.ob("sent:" + h)
                if not (e.v.k == "a" and e.v.a[0] == "core::result::Result" and e.v.a[1] == 0):
                    R.violation("fails:" + h, "%s of the client can fail: %s" % (h, show(e.v)), path=e.path)


# ------------------------------------------------------------------------------------------------ server dispatch
def dispatch(P, R, what):
    """what: 'event' | 'signal'"""
    b = server(P, "send_event")
    if not R.need(b, "send_event of the runner server"):
        return
    req = mk("arg", "request")
    m = fld(req, 0, "inner")
    pe = q.adt(P, "ProtocolEvent", "astro_run_protocol")
    drv, run, sig = parts(P, SERVER, "PluginDriver"), parts(P, SERVER, "dyn astro_run::runner::Runner"), parts(P, SERVER, "AstroRunSignal")
    if not (R.need(drv, "the server's plugins") and R.need(run, "the server's runner") and R.need(sig, "the server's signals")):
        return
    byty = {ty: h for h, ty in hooks(P).items()}
    r = summary(P, R, b, [me, req])
    seen = set()
    for e in r.exits:
        k = e.facts.get(mk("discr", m))
        if k is None or k[0] != "=":
            R.violation("undistinguished", "an event is handled without looking at its kind", path=e.path)
            continue
        v = pe["variants"][k[1]]
        x = fld(m, 0, v["name"] + ".0")
        pt = bare(v["fields"][0][1])
        calls = [(c[0], c[1]) for c in e.calls() if c[0] not in ("insert", "remove", "lookup")]
        h = byty.get(pt)
        seen.add(v["name"])
        if what == "event" and h:
            good = len(calls) == 2 and calls[0][0] == PLUGINS + h and base(calls[0][1][0], drv[0]) and calls[1][0] == RUNNER + h and base(calls[1][1][0], run[0]) \
                and all(same_as(a[1], x) for _, a in calls)
            if not good:
                R.violation("dispatch:" + v["name"], "a received %s event leads to %s" % (v["name"], ", ".join("%s(%s)" % (n.replace("astro_run::", ""), ", ".join(map(show, a))) for n, a in calls) or "nothing"), path=e.path)
            else:
                R.ob("dispatched:" + v["name"])
            for c in e.calls():
                if (c[0].startswith(RUNNER) or c[0].startswith(PLUGINS)) and not e.awaited(c[2]):
                    R.violation("await:" + v["name"], "%s is not awaited" % c[0], path=e.path)
        if what == "event" and not (e.v.k == "a" and e.v.a[1] == 0):
            R.violation("refused:" + v["name"], "an event is answered with %s" % show(e.v), path=e.path)
        if what == "event" and not h and any(n.startswith((PLUGINS, RUNNER)) for n, _ in calls):
            R.violation("extra:" + v["name"], "a %s message leads to %s" % (v["name"], [n for n, _ in calls]), path=e.path)
        if what == "signal":
            signal(P, R, e, v, x, calls, sig[0])
    miss = [v["name"] for v in pe["variants"] if v["name"] not in seen]
    if miss:
        R.violation("unhandled", "the server never handles %s" % ", ".join(miss))


def signal(P, R, e, v, x, calls, book):
    """what an event does to the signals of running steps"""
    place = lambda p: p.k == "r" and p.a[1] and p.a[1][-1][-1] == book or p.k == "r" and p.a[0] == ("S", me) and any(s[-1] == book for s in p.a[1])
    # a copy of the book does not count
    maps = [(c[0], c[1]) for c in e.calls() if c[0] in ("insert", "remove") and place(c[1][0])]
    sg = [(n.rsplit("::", 1)[1], a) for n, a in calls if "AstroRunSignal::" in n]
    name = v["name"]
    ad = q.adt(P, "SignalEvent", "astro_run_protocol")
    if v["fields"][0][1] == ad["name"]:
        key = Y(wf.field_of(P, ad, x, "step_id"))
        kd = wf.field_of(P, ad, x, "signal")
        kn = e.facts.get(mk("discr", kd))
        kind = q.adt(P, "Signal", "astro_run")["variants"][kn[1]]["name"].lower() if kn and kn[0] == "=" else None
        g = [(l, f) for l, f in e.facts.items() if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][1] is key]
        if maps:
            R.violation("signal:book", "a signal message changes which steps can be signalled", path=e.path)
        if g and g[0][1] == ("=", 0):
            R.ob("signal-unknown")
            if sg:
                R.violation("signal:unknown", "a signal for a step that is not running here sets %s" % show(sg[0][1][0]), path=e.path)
            return
        if not g and not sg:
            g = [1 for c in e.calls("lookup") if c[1][1] is key]
            if g and kind is None:
                R.ob("signal-unknown")
                return
            R.violation("signal:ignored", "a signal message is not looked up among the running steps", path=e.path)
            return
        good = len(sg) == 1 and sg[0][0] == kind and sg[0][1][0].k == "y" and g and sg[0][1][0].a[0] is fld(g[0][0].a[0], 0, "Some.0") and held(g[0][0].a[0].a[1][0], book)
        if not good:
            R.violation("signal:" + str(kind), "a %s signal for a running step does %s" % (kind, ", ".join("%s(%s)" % (n, show(a[0])) for n, a in sg) or "nothing"), path=e.path)
        else:
            R.ob("signal-set:" + kind)
        return
    if sg:
        R.violation("signal:by:" + name, "a %s event sets a signal" % name, path=e.path)
    if v["fields"][0][1].endswith("::StepRunResult"):
        key = Y(wf.field_of(P, q.adt(P, "StepRunResult", "astro_run"), x, "id"))
        if [(m, a[1]) for m, a in maps] != [("remove", key)]:
            R.violation("signal:left", "the signal of a completed step is not (only) removed: %s" % (", ".join("%s %s" % (m, show(a[1])) for m, a in maps) or "nothing is"), path=e.path)
        else:
            R.ob("signal-removed")
    elif maps:
        R.violation("signal:changed:" + name, "a %s event changes which steps can be signalled" % name, path=e.path)


def held(v, book):
    """v is the locked content of self.<book>"""
    l = v.a[0] if v.k == "y" else None
    return l is not None and l.k == "lk" and base(Y(l.a[0]) if type(l.a[0]) is V else l, book)


# ------------------------------------------------------------------------------------------------ start: connecting and the event loop
class Start(wf.AutoRule):
    """which: 'connect' | 'loop'"""
    fields = ("futs", "url", "n", "con", "meta", "put", "done", "ev", "cn", "clab", "snap", "sub", "closed", "began")
    init = ((), None, 0, None, None, False, False, None, 0, None, (), None, False, False)

    def __init__(self, P, which, version):
        super().__init__({which})
        self.P = P
        self.version = version
        self.urls = mk("arg", "urls")
        self.clients = parts(P, CLIENT, "HashMap")[0]
        self.events = parts(P, CLIENT, "ProtocolEvent")[0]
        self.meta = q.adt(P, "RunnerMetadata", "astro_run_scheduler")

    def fut(self, st, l):
        for x, k in self.g(st, "futs"):
            if x is l:
                return k
        return None

    def add(self, st, l, k):
        self.s(st, futs=tuple(x for x in self.g(st, "futs") if x[0] is not l and not wf.stale(x[0])) + ((l, k),))

    def is_clients(self, L):
        L = wf.elem_src(L)
        while L.k == "old":
            L = L.a[0]
        return L.k == "lk" and type(L.a[0]) is V and base(Y(L.a[0]), self.clients)

    def on_lock(self, E, st, g, c):
        if g.a[2] is not None and self.is_clients(g.a[2]):
            self.s(st, snap=(g.a[2],))

    def witness(self, E, st, L):
        return self.g(st, "ev") is not None and self.is_clients(L)

    def on_iter(self, E, st, c, L, e):
        if wf.elem_src(L) is self.urls:
            self.urldone(E, st, c)
            self.s(st, url=wf.elem_label(L, e), n=0, con=None, meta=None, put=False, done=e is None)
        elif self.is_clients(L) and self.g(st, "ev") is not None:
            if L not in self.g(st, "snap"):
                self.bad(st, "loop", "snapshot", "an event goes to the runners that were connected some time before it was received", c)
        return True

    def on_call(self, E, st, c):
        n = c.name or ""
        if n in (RECV, SUB, SEND) or GRPC in n:
            return "opaque"
        return None

    def is_stop(self, c):
        return True

    def on_opaque(self, E, st, c, l):
        n = c.name or ""
        a = [E.deep(st, x) for x in c.args]
        if n == SUB:
            if not base(a[0], self.events):
                self.bad(st, "loop", "subscribe:other", "the events of %s are listened to" % show(a[0]), c)
            if self.g(st, "began"):
                self.bad(st, "loop", "subscribe:late", "events are only listened to after connecting has begun, so earlier ones are lost", c)
            self.s(st, sub=l)
            self.did("loop", "subscribed")
        elif n == RECV:
            if self.g(st, "sub") is None or a[0] is not Y(self.g(st, "sub")):
                self.bad(st, "loop", "recv:other", "events are received from %s" % show(a[0]), c)
            self.add(st, l, "recv")
        elif GRPC in n:
            m = n.rsplit("::", 1)[1]
            self.add(st, l, m)
            if m == "connect":
                u = self.g(st, "url")
                v = a[0]
                while v.k == "y" and v.a[0].k == "pure" and str(v.a[0].a[0]).startswith("into"):
                    v = v.a[0].a[1][0]
                self.s(st, began=True, snap=(), n=min(self.g(st, "n") + 1, 2))
                if u is None or v is not Y(u):
                    self.bad(st, "connect", "url", "the client connects to %s" % show(a[0]), c)
                if self.g(st, "n") > 1:
                    self.bad(st, "connect", "twice", "the client connects to a url twice", c)
                self.did("connect", "connect")
            elif m == "get_runner_metadata":
                if self.g(st, "con") is None or a[0] is not Y(self.g(st, "con")):
                    self.bad(st, "connect", "metadata:of", "the metadata of %s is asked for" % show(a[0]), c)
            elif m == "send_event":
                L, e = element(self, a[0])
                if self.g(st, "ev") is None or inner(a[1]) is not Y(self.g(st, "ev")):
                    self.bad(st, "loop", "send:what", "a runner is sent %s instead of the event received" % show(a[1]), c)
                if L is None or L not in self.g(st, "snap"):
                    self.bad(st, "loop", "send:whom", "an event is sent to %s, not to a runner connected when it was received" % show(a[0]), c)
                if e == "wit":
                    self.s(st, cn=min(self.g(st, "cn") + 1, 2), clab=l)
            else:
                self.bad(st, "connect", "rpc:" + m, "starting the client calls %s of a runner" % m, c)
                self.bad(st, "loop", "rpc:" + m, "starting the client calls %s of a runner" % m, c)

    def on_await(self, E, st, l, c):
        k = self.fut(st, l)
        o = mk("out", l)
        if k == "recv":
            self.urldone(E, st, c)
            self.evdone(E, st, c)
            if not self.g(st, "done"):
                self.bad(st, "connect", "urls:early", "the client goes on before it has tried every url", c)
            self.did("connect", "all-urls")
            if "connect" in self.props:
                self.s(st, closed=True)
                return [(st, err(mk("a", "tokio::sync::broadcast::error::RecvError", 0, ())))]
            s1, s2 = st.copy(), st.copy()
            self.s(s1, ev=fld(o, 0, "Ok.0"), cn=0, clab=None, snap=())
            self.s(s2, ev=None)
            self.s(st, ev=None, closed=True)
            E1 = "tokio::sync::broadcast::error::RecvError"
            return [(s1, ok(Y(fld(o, 0, "Ok.0")))), (s2, err(mk("a", E1, 1, (Y(mk("const", "lag")),)))), (st, err(mk("a", E1, 0, ())))]
        if k == "connect":
            s1 = st.copy()
            self.s(s1, con=fld(o, 0, "Ok.0"))
            return [(s1, ok(Y(fld(o, 0, "Ok.0")))), (st, err(Y(fld(o, 0, "Err.0"))))]
        if k == "get_runner_metadata":
            s1 = st.copy()
            m = fld(fld(o, 0, "Ok.0"), 0, "inner")
            self.s(s1, meta=m)
            return [(s1, ok(mk("a", "tonic::Message", 0, (Y(m),)))), (st, err(Y(fld(o, 0, "Err.0"))))]
        if k == "send_event":
            self.s(st, clab=None)
        return None

    # --- connecting
    def mf(self, st, n):
        return wf.field_of(self.P, self.meta, self.g(st, "meta"), n)

    def same_version(self, E, st):
        l = self.mf(st, "version")
        f = st.facts.get(l)
        if f is not None:
            if f[0] == "=":
                return f[1] is self.version
            if self.version in f[1] or self.version.a[0] in f[1]:
                return False
        return None

    def present(self, E, st, key):
        for l, f in st.facts.items():
            if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "get" and l.a[0].a[1][1] is key and f[0] == "=" and self.is_clients(l.a[0].a[1][0].a[0]) \
                    and l.a[0].a[1][0].a[0] in self.g(st, "snap"):
                return bool(f[1])
        return None

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        L = mv.a[0] if mv.k in ("y", "hm") else None
        if L is None or type(L) is not V or not self.is_clients(L):
            return
        m = self.g(st, "meta")
        v = E.deep(st, val)
        if m is None or key is not Y(self.mf(st, "id")):
            self.bad(st, "connect", "insert:key", "a runner is entered under %s, not under the id it reports" % show(key), c)
            return
        if self.same_version(E, st) is not True:
            self.bad(st, "connect", "insert:version", "a runner is entered although its version may differ from the client's", c)
        if self.present(E, st, key) is not False:
            self.bad(st, "connect", "insert:replaces", "a runner is entered although another one with its id may be connected already", c)
        if not (v.k == "a" and any(x is Y(self.g(st, "con")) for x in v.a[2])):
            self.bad(st, "connect", "insert:client", "the runner is entered with another connection: %s" % show(v), c)
        if not (v.k == "a" and any(x is Y(m) for x in v.a[2])):
            self.bad(st, "connect", "insert:metadata", "the runner is entered with other metadata: %s" % show(v), c)
        if self.g(st, "put"):
            self.bad(st, "connect", "insert:twice", "a runner is entered twice", c)
        self.s(st, put=True)
        self.did("connect", "entered")

    def on_map_remove(self, E, st, c, root, path, mv, key):
        L = mv.a[0] if mv.k in ("y", "hm") else None
        if L is not None and type(L) is V and self.is_clients(L):
            self.bad(st, "connect", "removed", "starting the client disconnects a runner", c)

    def urldone(self, E, st, c=None):
        """the url whose turn it was has been dealt with"""
        if self.g(st, "url") is None:
            return
        self.did("connect", "url")
        if self.g(st, "n") == 0:
            self.bad(st, "connect", "url:skipped", "a url is passed over without connecting to it", c)
        if self.g(st, "put") or self.g(st, "con") is None or self.g(st, "meta") is None:
            return
        v = self.same_version(E, st)
        p = self.present(E, st, Y(self.mf(st, "id")))
        if v is not False and p is not True:
            self.bad(st, "connect", "url:dropped", "a runner of the client's version that is not connected yet is not entered", c)
        else:
            self.did("connect", "refused:" + ("version" if v is False else "duplicate"))

    # --- the loop
    def evdone(self, E, st, c=None):
        if self.g(st, "ev") is not None:
            if any(E.fact(st, mk("pure", "empty", (Y(L),))) == 1 for L in self.g(st, "snap")):
                self.did("loop", "no-runner")
            elif self.g(st, "cn") != 1 or self.g(st, "clab") is not None:
                self.bad(st, "loop", "runner:missed", "the next event is awaited before the last one was sent to every runner exactly once", c)
            else:
                self.did("loop", "event-to-all")
        self.s(st, cn=0)

    def on_exit(self, E, st, v):
        if not self.g(st, "closed"):
            self.bad(st, "loop", "stops", "the client stops forwarding events although more may come")
            self.bad(st, "connect", "stops", "the client stops although not every url was tried")
        self.evdone(E, st)
        self.did("loop", "ends-when-closed")

    def on_panic(self, E, st, what, line):
        for p in ("loop", "connect"):
            self.bad(st, p, "panic", "the client's start can panic: %s" % what)


def element(rule, v):
    """(the locked map of runners v is the connection of an element of, the kind of element); (None, None) otherwise"""
    l = v.a[0] if v.k == "y" else None
    while l is not None and l.k == "old":
        l = l.a[0]
    if l is None or l.k != "f" or l.a[2] != "client":
        return None, None
    l = l.a[0]
    while l.k in ("f", "old"):
        l = l.a[0]
    if l.k not in ("el", "wit") or not rule.is_clients(l.a[0]):
        return None, None
    return l.a[0], l.k


def version(P, R):
    """the version the server reports, as a constant"""
    b = server(P, "get_runner_metadata")
    if not R.need(b, "get_runner_metadata of the runner server"):
        return None
    r = summary(P, R, b, [me, mk("arg", "request")])
    ad = q.adt(P, "RunnerMetadata", "astro_run_scheduler")
    i = [f[0] for f in ad["variants"][0]["fields"]].index("version")
    vs = set()
    for x in r.exits:
        m = inner(x.v.a[2][0]) if x.v.k == "a" and x.v.a[1] == 0 else None
        vs.add(m.a[2][i] if m is not None and m.k == "a" else None)
    v = vs.pop() if len(vs) == 1 else None
    if v is None or v.k != "s":
        R.violation("version", "the server does not report one fixed version")
        return None
    return v


def start(P, R, which):
    v = version(P, R)
    bs = q.method(P, CR, CLIENT, "start")
    if v is None or not R.need(bs, CLIENT + "::start"):
        return
    r = Start(P, which, v)
    R.run(P, r, bs[0], args=[Y(me), Y(r.urls)], is_async=True, auto=r.start())
    return r


# ------------------------------------------------------------------------------------------------ the client runs a step
class ClientRun(wf.AutoRule):
    """Runner::run of the client, the task it spawns included. item: the response just received; why: what justifies failing the step;
    owed: a signal to be passed on"""
    fields = ("futs", "pair", "locks", "sched", "asked", "stream", "item", "why", "ended", "owed", "polled", "fin", "told", "evs", "rand")
    init = ((), None, (), None, False, None, None, None, False, None, frozenset(), False, False, (), False)

    def __init__(self, P, props):
        super().__init__(props)
        self.P = P
        self.ctx = mk("arg", "context")
        self.clients = parts(P, CLIENT, "HashMap")[0]
        self.sch = parts(P, CLIENT, "dyn astro_run_scheduler::Scheduler")[0]
        A = lambda n, c="astro_run": q.adt(P, n, c)
        self.resp = A("RunResponse", "astro_run_protocol")
        self.pe = A("ProtocolEvent", "astro_run_protocol")
        self.se = A("SignalEvent", "astro_run_protocol")
        self.log, self.res, self.sig, self.cx = A("Log"), A("RunResult"), A("Signal"), A("Context")
        self.cl = q.adt(P, "Client", CR)

    fut = Start.fut
    add = Start.add
    is_clients = Start.is_clients

    def on_spawn(self, E, st, c, fut):
        return "inline"

    def on_call(self, E, st, c):
        n = c.name or ""
        if n == "tokio::macros::support::thread_rng_n":
            self.s(st, rand=True)  # select! starts with any of its branches
            return None
        if n.startswith(SENDER):
            m = n[len(SENDER):]
            a = [E.deep(st, x) for x in c.args]
            if m in ("log", "error", "end", "succeeded", "cancelled", "failed", "timeout", "is_ended"):
                p = self.g(st, "pair")
                if p is None or a[0] is not Y(fld(p, 0, "0")):
                    self.bad(st, "P27", "stream:other", "%s() is called on %s, not on the stream of the step" % (m, show(a[0])), c)
                if m == "is_ended":
                    return K(1 if self.g(st, "ended") else 0)
                self.out(E, st, c, m, a[1:])
                return UNIT
            return None
        if n == "astro_run::stream::stream" or n == SCHED + "schedule" or GRPC in n or n == "astro_run::signals::signal::AstroRunSignal::recv" or n.endswith("StreamExt::next"):
            return "opaque"
        return None

    def is_stop(self, c):
        return True

    # --- what the step's own stream is told
    def out(self, E, st, c, m, a):
        it, why = self.g(st, "item"), self.g(st, "why")
        if m in ("log", "error"):
            msg = a[0]
            if it is not None and self.variant(E, st, it) in ("Log", None):
                l = self.vfield(it, "Log", "log")
                t = E.fact(st, mk("discr", wf.field_of(self.P, self.log, l, "log_type")))
                kinds = [v["name"] for v in q.adt(self.P, "WorkflowLogType", "astro_run")["variants"]]
                while msg.k == "y" and msg.a[0].k == "pure" and str(msg.a[0].a[0]).startswith("into"):
                    msg = msg.a[0].a[1][0]
                if msg is not Y(wf.field_of(self.P, self.log, l, "message")):
                    self.bad(st, "P27", "log:changed", "a log of the runner becomes %s" % show(msg), c)
                elif t is None or kinds[t].lower() != m:
                    self.bad(st, "P27", "log:kind:" + m, "a log of the runner is passed on by %s() without being known to be one" % m, c)
                else:
                    self.did("P27", "log-passed-on:" + m)
                self.s(st, item=None)
                return
            if m == "log" or why is None:
                self.bad(st, "P27", "log:own", "the client itself adds %s(%s) to the step's stream" % (m, show(msg)), c)
            return
        if m == "end":
            v = a[0]
        else:
            n = {"succeeded": "Succeeded", "cancelled": "Cancelled", "failed": "Failed", "timeout": "Failed"}[m]
            v = mk("a", self.res["name"], q.variant_index(self.P, self.res["name"], n), tuple(a))
        if self.g(st, "ended"):
            if it is not None and self.variant(E, st, it) == "Result":
                self.s(st, item=None)
            return  # only the first result counts (P10)
        if it is not None and self.variant(E, st, it) == "Result":
            if v is not Y(self.vfield(it, "Result", "result")):
                self.bad(st, "P27", "result:changed", "the result of the runner becomes %s" % show(v), c)
            self.did("P27", "result-passed-on")
            self.s(st, item=None, ended=True)
            return
        if why is None:
            self.bad(st, "P27", "result:own", "the step ends with %s although its runner has not answered and nothing went wrong" % show(v), c)
        elif not (v.k == "a" and v.a[0] == self.res["name"] and self.res["variants"][v.a[1]]["name"] == "Failed" and v.a[2][0] is not K(0)):
            self.bad(st, "P27", "result:" + why, "the step ends with %s although %s" % (show(v), why), c)
        else:
            self.did("P27", "failed:" + why)
        self.s(st, ended=True)

    def variant(self, E, st, m):
        n = E.fact(st, mk("discr", m))
        return None if n is None else self.resp["variants"][n]["name"]

    def vfield(self, l, v, n):
        vi = q.variant_index(self.P, self.resp["name"], v)
        i = [f[0] for f in self.resp["variants"][vi]["fields"]].index(n)
        return fld(l, i, "%s.%s" % (v, n))

    # --- calls
    def on_opaque(self, E, st, c, l):
        n = c.name or ""
        a = [E.deep(st, x) for x in c.args]
        if n == "astro_run::stream::stream":
            self.s(st, pair=l)
        elif n == SCHED + "schedule":
            if not base(a[0], self.sch):
                self.bad(st, "P27", "schedule:other", "%s is asked for a runner" % show(a[0]), c)
            if a[2] is not Y(self.ctx):
                self.bad(st, "P27", "schedule:step", "the scheduler is asked about %s" % show(a[2]), c)
            if not self.all_runners(E, st, a[1]):
                self.bad(st, "P27", "schedule:runners", "the scheduler is offered %s, not all connected runners" % show(a[1]), c)
            self.did("P27", "scheduled")
            self.add(st, l, "schedule")
        elif n.endswith("StreamExt::next"):
            if self.g(st, "stream") is None or a[0] is not Y(self.g(st, "stream")):
                self.bad(st, "P27", "next:other", "responses are read from %s" % show(a[0]), c)
            self.add(st, l, "next")
        elif n.endswith("AstroRunSignal::recv"):
            if a[0] is not Y(wf.field_of(self.P, self.cx, self.ctx, "signal")):
                self.bad(st, "P29", "recv:other", "the client listens to the signal %s" % show(a[0]), c)
            self.add(st, l, "recv")
        elif GRPC in n:
            m = n.rsplit("::", 1)[1]
            self.add(st, l, m)
            r = self.g(st, "sched")
            good = r is not None and self.chosen(a[0], r)
            if m == "run":
                if not good:
                    self.bad(st, "P27", "run:runner", "the step is sent to %s, not to the runner picked" % show(a[0]), c)
                if not same_as(inner(a[1]), self.ctx):
                    self.bad(st, "P27", "run:context", "the runner gets %s instead of the step" % show(a[1]), c)
                if self.g(st, "asked"):
                    self.bad(st, "P27", "run:twice", "a runner is asked twice to run the step", c)
                self.s(st, asked=True)
                self.did("P27", "run")
            elif m == "send_event":
                v = inner(a[1])
                if not good:
                    self.bad(st, "P29", "signal:runner", "a signal is sent to %s, not to the runner of the step" % show(a[0]), c)
                owed = self.g(st, "owed")
                w = v.a[2][0] if v.k == "a" and v.a[0] == self.pe["name"] and self.pe["variants"][v.a[1]]["name"] == "Signal" else None
                if owed is None:
                    self.bad(st, "P29", "signal:spurious", "%s is sent although the step was not signalled" % show(v), c)
                elif w is None or w.k != "a" or w.a[2][self.ix(self.se, "step_id")] is not Y(wf.field_of(self.P, self.cx, self.ctx, "id")) \
                        or w.a[2][self.ix(self.se, "signal")] is not owed:
                    self.bad(st, "P29", "signal:changed", "after the signal %s the runner is sent %s" % (show(owed), show(v)), c)
                else:
                    self.did("P29", "signal-sent")
                self.s(st, owed=None)
            else:
                self.bad(st, "P27", "rpc:" + m, "running a step calls %s of a runner" % m, c)

    def ix(self, ad, n):
        return [f[0] for f in ad["variants"][0]["fields"]].index(n)

    def witness(self, E, st, L):
        return self.is_clients(L) and self.g(st, "sched") is None

    def all_runners(self, E, st, v):
        """v lists the metadata of every client once, in any order"""
        def one(x):
            return x.k == "y" and x.a[0].k == "f" and x.a[0].a[2] == "metadata" and x.a[0].a[0].k == "f" and self.elem(x.a[0].a[0].a[0])

        def mine(x):
            return one(x) and x.a[0].a[0].a[0].k == "wit"

        def seg(s):
            if s[0] == "one":
                return one(s[1])
            return s[0] in ("rep", "alt") and all(seg(x) and not (x[0] == "one" and mine(x[1])) for x in s[1])
        if v.k != "v" or not all(seg(s) for s in v.a[0]):
            return False
        n = sum(1 for s in v.a[0] if s[0] == "one" and mine(s[1]))
        if n == 0 and any(E.fact(st, mk("pure", "empty", (Y(L),))) == 1 for L in self.g(st, "locks")):
            return True
        if n == 1:
            self.did("P27", "offered")
        return n == 1

    def elem(self, l):
        while l.k == "old":
            l = l.a[0]
        return l.k in ("el", "wit") and self.is_clients(l.a[0])

    def chosen(self, v, r):
        """v is the connection of the runner with the id picked"""
        l = v.a[0] if v.k == "y" else None
        i = Y(wf.field_of(self.P, q.adt(self.P, "RunnerMetadata", "astro_run_scheduler"), r, "id"))
        return l is not None and l.k == "f" and l.a[2] == "client" and l.a[0] is fld(mk("pure", "get", (Y(self.lockof(l)), i)), 0, "Some.0")

    def lockof(self, l):
        x = l.a[0].a[0] if l.a[0].k == "f" else None
        if x is not None and x.k == "pure" and x.a[0] == "get" and x.a[1][0].k == "y" and self.is_clients(x.a[1][0].a[0]):
            return x.a[1][0].a[0]
        return mk("const", "?")

    def on_fact(self, E, st, l, n):
        # the scheduler answers with one of the runners it was given, each of which is a client entered under its id (P28)
        r = self.g(st, "sched") if st.auto else None
        if r is not None and l.k == "discr" and n == 0 and l.a[0].k == "pure" and l.a[0].a[0] == "get":
            i = Y(wf.field_of(self.P, q.adt(self.P, "RunnerMetadata", "astro_run_scheduler"), r, "id"))
            if l.a[0].a[1][1] is i and l.a[0].a[1][0].k == "y" and self.is_clients(l.a[0].a[1][0].a[0]) and l.a[0].a[1][0].a[0] in self.g(st, "locks"):
                return False
        return True

    def on_iter(self, E, st, c, L, e):
        if self.is_clients(L) and self.g(st, "sched") is None:
            self.s(st, locks=tuple(sorted(set(self.g(st, "locks")) | {wf.elem_src(L)}, key=show)))
        return True

    # --- waiting
    def settled(self, st, what, c=None):
        if self.g(st, "item") is not None:
            self.bad(st, "P27", "lost", "the client %s without having passed on what the runner sent" % what, c)
        if self.g(st, "owed") is not None:
            self.bad(st, "P29", "signal:lost", "the client %s without having told the runner of the signal" % what, c)
        self.s(st, item=None)

    def on_pending(self, E, st, l, c):
        k = self.fut(st, l)
        if k:
            self.s(st, polled=self.g(st, "polled") | {k})

    def on_yield(self, E, st):
        self.settled(st, "waits")
        p = self.g(st, "polled")
        if "next" not in p:
            self.bad(st, "P27", "wait:responses", "the client waits without listening to the runner")
        if "recv" not in p:
            self.bad(st, "P29", "wait:signal", "the client waits without listening to the step's signal")
        self.did("P27", "wait")
        self.did("P29", "wait")
        self.s(st, polled=frozenset(), rand=False)

    def on_await(self, E, st, l, c):
        k = self.fut(st, l)
        o = mk("out", l)
        if k == "schedule":
            s1 = st.copy()
            self.s(s1, why="no runner was picked")
            r = fld(o, 0, "Some.0")
            self.s(st, sched=r)
            return [(s1, NONE), (st, some(Y(r)))]
        if k == "run":
            s1 = st.copy()
            self.s(s1, why="the runner could not be asked")
            m = fld(fld(o, 0, "Ok.0"), 0, "inner")
            self.s(st, stream=m)
            return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(mk("a", "tonic::Message", 0, (Y(m),))))]
        if k == "next":
            self.settled(st, "reads on", c)
            if self.g(st, "fin"):
                self.bad(st, "P27", "next:after-end", "the client reads on after the responses have ended", c)
            if not self.g(st, "rand") and not self.g(st, "told") and "recv" not in self.g(st, "polled"):
                self.bad(st, "P29", "starve:signal", "while the runner answers, the client goes on reading without ever looking at the step's signal", c)
            s1, s2 = st.copy(), st.copy()
            self.s(s1, fin=True, why=None if self.g(st, "ended") else "the responses ended without a result", polled=frozenset(), rand=False)
            x = fld(o, 0, "Some.0")
            self.s(s2, why="the connection broke", polled=frozenset(), rand=False)
            it = fld(x, 0, "Ok.0")
            self.s(st, item=it, polled=frozenset(), rand=False)
            return [(s1, NONE), (s2, some(err(Y(fld(x, 0, "Err.0"))))), (st, some(ok(Y(it))))]
        if k == "recv":
            self.settled(st, "takes a signal", c)
            if self.g(st, "told"):
                return "kill"  # a signal is delivered once (P09)
            r = []
            for i, v in enumerate(self.sig["variants"]):
                s2 = st.copy()
                x = mk("a", self.sig["name"], i, ())
                self.s(s2, owed=x, told=True, polled=frozenset(), rand=False)
                r.append((s2, x))
            return r
        if k == "send_event":
            s1 = st.copy()
            self.s(s1, why="the runner could not be told of a signal")
            o = mk("out", l)
            return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(Y(fld(o, 0, "Ok.0"))))]
        return None

    def finished(self, st, what):
        self.settled(st, "ends")
        if not self.g(st, "ended"):
            self.bad(st, "P27", "never-ends:" + what, "the step's stream is not ended when %s ends, so the step never completes" % what)
        self.did("P27", "ended")

    def on_task_end(self, E, st, v):
        self.finished(st, "its task")

    def on_exit(self, E, st, v):
        p = self.g(st, "pair")
        if p is None or v is not ok(Y(fld(p, 1, "1"))):
            self.bad(st, "P27", "returned", "the client returns %s instead of the step's stream" % show(v))
        self.finished(st, "run")

    def on_panic(self, E, st, what, line):
        for p in ("P27", "P29"):
            self.bad(st, p, "panic", "running a step on a remote runner can panic: %s" % what)


def client_run(P, R, props):
    bs = q.impl_of(P, "Runner", CLIENT, "run")
    if not R.need(bs, "run of the client"):
        return None
    r = ClientRun(P, props)
    R.run(P, r, bs[0], args=[Y(me), Y(r.ctx)], is_async=True, auto=r.start())
    return r


# ------------------------------------------------------------------------------------------------ the server runs a step
class ServerRun(wf.AutoRule):
    """run of the server, the task it spawns included"""
    fields = ("futs", "chan", "rx", "reg", "ran", "item", "fin", "res", "sent", "gone", "failed")
    init = ((), None, None, False, 0, None, False, None, False, False, False)

    def __init__(self, P, props):
        super().__init__(props)
        self.P = P
        self.req = mk("arg", "request")
        self.ctx = fld(self.req, 0, "inner")
        self.run = parts(P, SERVER, "dyn astro_run::runner::Runner")[0]
        self.book = parts(P, SERVER, "AstroRunSignal")[0]
        self.cx = q.adt(P, "Context", "astro_run")
        self.resp = q.adt(P, "RunResponse", "astro_run_protocol")

    fut = Start.fut
    add = Start.add

    def on_spawn(self, E, st, c, fut):
        return "inline"

    def cf(self, n):
        return Y(wf.field_of(self.P, self.cx, self.ctx, n))

    def on_call(self, E, st, c):
        n = c.name or ""
        if n == RUNNER + "run" or n.endswith("StreamExt::next") or n.startswith("tokio::sync::mpsc::") or n.endswith("StreamReceiver::result") or "ReceiverStream::new" in n:
            return "opaque"
        return None

    def is_stop(self, c):
        return True

    def on_opaque(self, E, st, c, l):
        n = c.name or ""
        a = [E.deep(st, x) for x in c.args]
        if n == RUNNER + "run":
            if not base(a[0], self.run):
                self.bad(st, "P27", "run:other", "%s runs the step" % show(a[0]), c)
            if not same_as(a[1], self.ctx):
                self.bad(st, "P27", "run:context", "the runner gets %s instead of the step sent" % show(a[1]), c)
            if self.g(st, "ran"):
                self.bad(st, "P27", "run:twice", "the step is run twice", c)
            if not self.g(st, "reg"):
                self.bad(st, "P29", "signal:unregistered", "the step starts before its signal is registered, so a signal may be missed", c)
            self.s(st, ran=1)
            self.did("P27", "run")
            self.add(st, l, "run")
        elif n.endswith("StreamExt::next"):
            if not (a[0].k == "y" and a[0].a[0].k == "f" and self.kindof(st, a[0].a[0]) == "run"):
                self.bad(st, "P27", "next:other", "logs are read from %s" % show(a[0]), c)
            self.add(st, l, "next")
        elif n.endswith("StreamReceiver::result"):
            if not self.g(st, "fin"):
                self.bad(st, "P27", "result:early", "the result is read before the stream has ended", c)
            self.s(st, res=l)
        elif "mpsc::" in n:
            m = n.rsplit("::", 1)[1]
            if m in ("channel", "unbounded_channel"):
                self.s(st, chan=l)
            elif m in ("send", "try_send", "blocking_send"):
                if m == "try_send":
                    self.bad(st, "P27", "send:lossy", "a response is dropped when the client is slow", c)
                self.sent(E, st, c, a)
                self.add(st, l, "send")
        elif "ReceiverStream::new" in n:
            self.s(st, rx=(l, a[0]))

    def kindof(self, st, l):
        while l.k in ("f", "old", "out"):
            k = self.fut(st, l.a[0]) if l.k == "out" else None
            if k:
                return k
            l = l.a[0]
        return None

    def sent(self, E, st, c, a):
        ch = self.g(st, "chan")
        if ch is None or a[0] is not Y(fld(ch, 0, "0")):
            self.bad(st, "P27", "send:other", "a response is sent on %s" % show(a[0]), c)
        v = a[1]
        m = v.a[2][0] if v.k == "a" and v.a[0] == "core::result::Result" and v.a[1] == 0 else None
        if m is None or m.k != "a" or m.a[0] != self.resp["name"]:
            if self.g(st, "failed"):
                self.did("P27", "error-sent")
                return
            self.bad(st, "P27", "send:what", "the client is sent %s" % show(v), c)
            return
        w = self.resp["variants"][m.a[1]]
        g = dict(zip([f[0] for f in w["fields"]], m.a[2]))
        if g["step_id"] is not self.cf("id"):
            self.bad(st, "P27", "send:id", "a response carries id %s" % show(g["step_id"]), c)
        if w["name"] == "Log":
            it = self.g(st, "item")
            if it is None or not same_as(g["log"], it):
                self.bad(st, "P27", "send:log", "the client is sent the log %s, not the one just received" % show(g["log"]), c)
            else:
                self.did("P27", "log-sent")
            self.s(st, item=None)
        else:
            r = self.g(st, "res")
            if self.g(st, "sent"):
                self.bad(st, "P27", "send:result-twice", "the result is sent twice", c)
            if not self.g(st, "fin") or r is None or g["result"] is not Y(fld(r, 0, "Some.0")):
                self.bad(st, "P27", "send:result", "the client is sent the result %s" % show(g["result"]), c)
            else:
                self.did("P27", "result-sent")
            self.s(st, sent=True)

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        L = mv.a[0] if mv.k in ("y", "hm") else None
        if L is None or type(L) is not V or not held(Y(L), self.book):
            return
        if key is not self.cf("id") or E.deep(st, val) is not self.cf("signal"):
            self.bad(st, "P29", "register", "the server registers %s for %s" % (show(E.deep(st, val)), show(key)), c)
        else:
            self.did("P29", "registered")
        self.s(st, reg=True)

    def on_map_remove(self, E, st, c, root, path, mv, key):
        L = mv.a[0] if mv.k in ("y", "hm") else None
        if L is not None and type(L) is V and held(Y(L), self.book) and not self.g(st, "fin"):
            self.bad(st, "P29", "unregister", "the signal of %s is dropped while the step runs" % show(key), c)

    def lost(self, st, what, c=None):
        if self.g(st, "item") is not None and not self.g(st, "gone"):
            self.bad(st, "P27", "log:lost", "the server %s without having sent the log it received" % what, c)
        self.s(st, item=None)

    def on_await(self, E, st, l, c):
        k = self.fut(st, l)
        o = mk("out", l)
        if k == "run":
            s1 = st.copy()
            self.s(s1, failed=True)
            return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(Y(fld(o, 0, "Ok.0"))))]
        if k == "next":
            self.lost(st, "reads on", c)
            if self.g(st, "fin"):
                self.bad(st, "P27", "next:after-end", "the server reads on after the logs have ended", c)
            s1 = st.copy()
            self.s(s1, fin=True)
            it = fld(o, 0, "Some.0")
            self.s(st, item=it)
            return [(s1, NONE), (st, some(Y(it)))]
        if k == "send":
            s1 = st.copy()
            self.s(s1, gone=True)
            return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(UNIT))]
        return None

    def on_task_end(self, E, st, v):
        self.lost(st, "ends")
        r = self.g(st, "res")
        none = r is not None and E.fact(st, mk("discr", r)) == 0
        if self.g(st, "failed"):
            self.did("P27", "run-failed")
        elif self.g(st, "gone"):
            pass
        elif not self.g(st, "fin"):
            self.bad(st, "P27", "early", "the server stops before the step's stream has ended")
        elif not self.g(st, "sent") and not none:
            self.bad(st, "P27", "result:lost", "the server ends without having sent the result")
        self.s(st, ran=2)

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        m = inner(v.a[2][0]) if v.k == "a" and v.a[1] == 0 else None
        rx, ch = self.g(st, "rx"), self.g(st, "chan")
        if m is None or rx is None or m is not Y(rx[0]) or ch is None or rx[1] is not Y(fld(ch, 1, "1")):
            self.bad(st, "P27", "returned", "the server answers with %s" % show(v))
        if not self.g(st, "ran"):
            self.bad(st, "P27", "not-run", "the server answers without having started the step")
        if not self.g(st, "reg"):
            self.bad(st, "P29", "not-registered", "the server answers without having registered the step's signal")
        self.did("P29", "answered")

    def on_panic(self, E, st, what, line):
        for p in ("P27", "P29"):
            self.bad(st, p, "server:panic", "the server can panic running a step: %s" % what)


def server_run(P, R, props):
    b = server(P, "run")
    if not R.need(b, "run of the server"):
        return None
    r = ServerRun(P, props)
    R.run(P, r, b, args=[Y(me), Y(r.req)], is_async=True, auto=r.start())
    return r


# ------------------------------------------------------------------------------------------------ before-run hooks
class Before(wf.AutoRule):
    """on_before_run_step of the client: every runner, one after the other, each with the command the previous one gave"""
    fields = ("n", "lab", "val", "failed", "locks")
    init = (0, None, None, False, ())

    def __init__(self, P):
        super().__init__({"P30"})
        self.P = P
        self.clients = parts(P, CLIENT, "HashMap")[0]
        self.step = mk("arg", "step")
        self.fs = [f[0] for f in q.adt(P, "Command", "astro_run")["variants"][0]["fields"]]

    is_clients = Start.is_clients

    def start(self):
        return tuple(Y(self.step) if f == "val" else i for f, i in zip(self.fields, self.init))

    def witness(self, E, st, L):
        return self.is_clients(L)

    def on_lock(self, E, st, g, c):
        if g.a[2] is not None and self.is_clients(g.a[2]):
            self.s(st, locks=(g.a[2],))

    def on_call(self, E, st, c):
        return "opaque" if GRPC in (c.name or "") else None

    def is_stop(self, c):
        return True

    def on_opaque(self, E, st, c, l):
        n = c.name or ""
        if GRPC not in n:
            return
        if not n.endswith("call_before_run_step_hook"):
            self.bad(st, "P30", "rpc", "the before-run hook calls %s" % n, c)
            return
        a = [E.deep(st, x) for x in c.args]
        L, e = element(self, a[0])
        if L is None or L not in self.g(st, "locks"):
            self.bad(st, "P30", "whom", "the before-run hook of %s is called, not that of a connected runner" % show(a[0]), c)
        if carries(self.P, E, inner(a[1]), self.g(st, "val")):
            self.bad(st, "P30", "what", "a runner's before-run hook gets %s instead of what the previous one gave (%s)" % (show(inner(a[1])), ", ".join(carries(self.P, E, inner(a[1]), self.g(st, "val")))), c)
        if self.g(st, "failed"):
            self.bad(st, "P30", "after-failure", "a further before-run hook is called after one has failed", c)
        if self.g(st, "lab") is not None:
            self.bad(st, "P30", "unawaited", "a further before-run hook is called before the last one was awaited", c)
        if e == "wit":
            self.s(st, n=min(self.g(st, "n") + 1, 2))
        self.s(st, lab=l)
        self.did("P30", "runner-called")

    def on_await(self, E, st, l, c):
        if l is not self.g(st, "lab"):
            return None
        o = mk("out", l)
        s1 = st.copy()
        self.s(s1, failed=True, lab=None)
        m = fld(fld(o, 0, "Ok.0"), 0, "inner")
        self.s(st, val=Y(m), lab=None)
        return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(mk("a", "tonic::Message", 0, (Y(m),))))]

    def on_exit(self, E, st, v):
        v = E.deep(st, v)
        if v.k == "a" and v.a[1] == 1:
            self.did("P30", "error")
            if not self.g(st, "failed"):
                self.bad(st, "P30", "error", "the before-run hook of the client fails although none of the runners' failed")
            return
        if self.g(st, "failed"):
            self.bad(st, "P30", "swallowed", "the step goes on although the before-run hook of a runner failed")
        if self.g(st, "n") != 1 and not any(E.fact(st, mk("pure", "empty", (Y(L),))) == 1 for L in self.g(st, "locks")):
            self.bad(st, "P30", "missed", "the client returns without having called the before-run hook of every runner exactly once")
        if self.g(st, "lab") is not None:
            self.bad(st, "P30", "unawaited", "the client returns before the last before-run hook was awaited")
        self.did("P30", "all-runners")
        if v.k != "a" or carries(self.P, E, v.a[2][0], self.g(st, "val")):
            self.bad(st, "P30", "step", "the step after the before-run hooks is %s, not what they produced" % show(v))

    def on_panic(self, E, st, what, line):
        self.bad(st, "P30", "panic", "the before-run hook can panic: %s" % what)


def carries(P, E, v, w):
    """fields of the command (or step) w that v does not have"""
    c, s = q.adt(P, "Command", "astro_run"), q.adt(P, "Step", "astro_run")
    if v is w:
        return []
    r = []
    cf, sf = ([f[0] for f in a["variants"][0]["fields"]] for a in (c, s))

    def at(x, n):
        # a value whose type is not known is a step or a command: both name the field
        if x.k == "a":
            fs = cf if x.a[0] == c["name"] else sf if x.a[0] == s["name"] else []
            return x.a[2][fs.index(n)] if n in fs else None
        if x.k == "y":
            return ("field", x.a[0], n)
        return None
    for n in cf:
        a, b = at(v, n), at(w, n)
        if type(a) is V and a.k == "y" and a.a[0].k == "f" and a.a[0].a[2] == n:
            a = ("field", a.a[0].a[0], n)
        if type(b) is V and b.k == "y" and b.a[0].k == "f" and b.a[0].a[2] == n:
            b = ("field", b.a[0].a[0], n)
        if a is None or a != b:
            r.append(n)
    return r


def before(P, R):
    bs = q.impl_of(P, "Runner", CLIENT, "on_before_run_step")
    if R.need(bs, "on_before_run_step of the client"):
        r = Before(P)
        R.run(P, r, bs[0], args=[Y(me), Y(r.step)], is_async=True, auto=r.start())
        for n in ("runner-called", "all-runners", "error"):
            R.floor(r, n, 1)
    b = server(P, "call_before_run_step_hook")
    if not R.need(b, "call_before_run_step_hook of the server"):
        return
    drv, run = parts(P, SERVER, "PluginDriver"), parts(P, SERVER, "dyn astro_run::runner::Runner")
    req = mk("arg", "request")
    r = summary(P, R, b, [me, req])
    m = Y(fld(req, 0, "inner"))
    for e in r.exits:
        cs = [c for c in e.calls() if c[0] not in ("insert", "remove", "lookup")]
        if [c[0] for c in cs] != [PLUGINS + "on_before_run_step", RUNNER + "on_before_run_step"] or not all(e.awaited(c[2]) for c in cs):
            R.violation("server:calls", "the server's before-run hook calls %s" % [c[0] for c in cs], path=e.path)
            continue
        p, u = cs
        if not base(p[1][0], drv[0]) or not base(u[1][0], run[0]):
            R.violation("server:other", "the server's before-run hook calls %s and %s" % (show(p[1][0]), show(u[1][0])), path=e.path)
        f = carries(P, None, p[1][1], m)
        if f:
            R.violation("server:plugins", "the server's plugins get %s, with another %s" % (show(p[1][1]), ", ".join(f)), path=e.path)
        f = carries(P, None, u[1][1], Y(mk("out", p[2])))
        if f:
            R.violation("server:runner", "the server's runner gets %s, with another %s" % (show(u[1][1]), ", ".join(f)), path=e.path)
        k = e.facts.get(mk("discr", mk("out", u[2])))
        R.ob("server-hook")
        if k == ("=", 1):
            R.ob("server-hook-failed")
            if e.v.k != "a" or e.v.a[1] != 1:
                R.violation("server:swallowed", "the server answers %s although its runner's hook failed" % show(e.v), path=e.path)
        elif e.v.k != "a" or e.v.a[1] != 0:
            R.violation("server:fails", "the server answers %s although no hook failed" % show(e.v), path=e.path)
        else:
            x = inner(e.v.a[2][0])
            f = carries(P, None, x, Y(fld(mk("out", u[2]), 0, "Ok.0")))
            if f:
                R.violation("server:answer", "the server answers with %s, with another %s" % (show(x), ", ".join(f)), path=e.path)


# ------------------------------------------------------------------------------------------------ what the builders were given
def reported(P, R):
    B = "AstroRunRemoteRunnerServerBuilder"
    x = {n: Y(mk("arg", n)) for n in ("id", "max", "docker", "host", "runner", "plugin", "plugin2")}
    x.update({"old_" + n: Y(mk("arg", "old_" + n)) for n in ("id", "max", "docker", "host", "runner")})
    orders = [
        [("id", "id"), ("runner", "runner"), ("max_runs", "max"), ("support_docker", "docker"), ("support_host", "host"), ("plugin", "plugin"), ("plugin", "plugin2")],
        [("plugin", "plugin"), ("support_host", "host"), ("support_docker", "docker"), ("plugin", "plugin2"), ("max_runs", "max"), ("runner", "runner"), ("id", "id")],
    ]
    # the last value given counts
    orders.append([("id", "old_id"), ("runner", "old_runner"), ("max_runs", "old_max"), ("support_docker", "old_docker"), ("support_host", "old_host")] + orders[0])
    want = {"id": x["id"], "max_runs": x["max"], "support_docker": x["docker"], "support_host": x["host"],
            "os": S(platform.system().lower()), "arch": S(platform.machine())}
    ad = q.adt(P, "RunnerMetadata", "astro_run_scheduler")
    for o in orders:
        v = chain(P, R, "server", None, [(SERVER, "builder", [])] + [(B, m, [x[a]]) for m, a in o] + [(B, "build", [])], CR)
        if v is None:
            return
        R.ob("server-built")
        if v.k != "a" or v.a[1] != 0 or v.a[2][0].k != "a":
            R.violation("server:build", "a runner server given an id and a runner is built as %s" % show(v))
            return
        srv = v.a[2][0]
        b = server(P, "get_runner_metadata")
        r = Sum("get_runner_metadata")
        R.run(P, r, b, args=[srv, Y(mk("arg", "request"))], is_async=True, auto=())
        for e in r.exits:
            m = inner(e.v.a[2][0]) if e.v.k == "a" and e.v.a[1] == 0 else None
            if m is None or m.k != "a":
                R.violation("metadata", "the server reports %s" % show(e.v), path=e.path)
                continue
            for (n, _, _), y in zip(ad["variants"][0]["fields"], m.a[2]):
                while y.k == "y" and y.a[0].k == "pure" and str(y.a[0].a[0]).startswith("into"):
                    y = y.a[0].a[1][0]
                R.ob("reported")
                if n in want and y is not want[n]:
                    R.violation("metadata:" + n, "the server reports %s = %s instead of %s" % (n, show(y), show(want[n])), path=e.path)
        fs = {f[0]: y for f, y in zip(q.adt(P, SERVER, CR)["variants"][0]["fields"], srv.a[2])}
        for k, frag in (("runner", "dyn astro_run::runner::Runner"),):
            y = fs[parts(P, SERVER, frag)[0]]
            if not q.mentions(y, mk("arg", "runner")) or q.mentions(y, mk("arg", "old_runner")):
                R.violation("server:" + k, "the server is built with %s %s" % (k, show(y)))
        d = fs[parts(P, SERVER, "PluginDriver")[0]]
        pl = [l.a[0] for l in q.labels(d) if l.k == "arg" and l.a[0].startswith("plugin")]
        if sorted(pl) != ["plugin", "plugin2"]:
            R.violation("server:plugins", "the server is built with plugins %s" % show(d))
        elif q_order(d) != ["plugin", "plugin2"]:
            R.violation("server:plugin-order", "the server's plugins are %s" % show(d))
    for m in ("id", "runner"):
        rest = [(B, k, [x[a]]) for k, a in orders[0] if k != m]
        v = chain(P, R, "server", None, [(SERVER, "builder", [])] + rest + [(B, "build", [])], CR)
        R.ob("server-refused")
        if v is not None and (v.k != "a" or v.a[1] != 1):
            R.violation("server:no-" + m, "a runner server without %s is built" % m)
    B = CLIENT + "Builder"
    for old in (False, True):
        ms = ([(B, "scheduler", [Y(mk("arg", "old"))])] if old else []) + [(B, "scheduler", [Y(mk("arg", "sched"))])]
        v = chain(P, R, "client", None, [(CLIENT, "builder", [])] + ms + [(B, "build", [])], CR)
        if v is not None:
            R.ob("client-built")
            f = [y for f, y in zip(q.adt(P, CLIENT, CR)["variants"][0]["fields"], v.a[2][0].a[2]) if "dyn astro_run_scheduler" in f[1]] if v.k == "a" and v.a[1] == 0 else []
            if len(f) != 1 or not q.mentions(f[0], mk("arg", "sched")) or q.mentions(f[0], mk("arg", "old")):
                R.violation("client:scheduler", "a client given a scheduler is built as %s" % show(v))


def q_order(v):
    """names of the arguments in v, from left to right"""
    out = []

    def go(x):
        if type(x) is V:
            if x.k == "arg":
                out.append(x.a[0])
            for y in x.a:
                go(y)
        elif type(x) is tuple:
            for y in x:
                go(y)
    go(v)
    return [n for n in out if n.startswith("plugin")]

