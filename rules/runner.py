"""The runner that executes steps on this machine or in docker (P32-P40)."""
import re
from ar import q
from ar.summ import MapSummary, Summary
from ar.vals import *
from . import wf
from .common import same_as

CR = "astro_runner"
PROC = "tokio::process::Command::"
CHILD = "tokio::process::Child::"
SENDER = "astro_run::stream::StreamSender::"
SIGNAL = "astro_run::signals::signal::AstroRunSignal::"
NEXT = ("tokio::io::util::lines::Lines::next_line",)
KIND = "core::io::error::ErrorKind"
ENV = "astro_run::types::envs::EnvironmentVariable"
ASSUME = ["tokio's process, file and line reading functions do what they are documented to do",
          "sh and docker interpret the command line they are given as documented",
          "the parts of a step (names, paths, values) contain no text that the shell would interpret (the code does not quote them)"]
me = mk("arg", "self")


def label(v):
    return v.a[0] if v.k == "y" else None


def unwrap(v):
    """without conversions between string types, references and paths"""
    while v.k == "y" and v.a[0].k == "pure" and (str(v.a[0].a[0]).startswith("into") or v.a[0].a[0] in ("to_str", "as_path", "to_path_buf", "new", "from", "to_string", "to_string_lossy", "display")) \
            and len(v.a[0].a[1]) == 1:
        v = v.a[0].a[1][0]
    return v


def result(P):
    return q.adt(P, "RunResult", "astro_run")


def outcome(P, m, a):
    """the result that a method of the stream ends it with"""
    if m == "end":
        return a[0]
    n = {"succeeded": "Succeeded", "cancelled": "Cancelled", "failed": "Failed", "timeout": "Failed"}[m]
    r = result(P)
    return mk("a", r["name"], q.variant_index(P, r["name"], n), tuple(a))


def kindname(P):
    a = P.adts[KIND]
    return {v["name"]: i for i, v in enumerate(a["variants"])}


class Process(wf.AutoRule):
    """Command::run and Command::exec: the process, what it writes and how it ends.
    cmd: the process being described; conf: what it was told; child: what spawn returned; open: streams not yet at their end; item: what the last read gave;
    exit: None | 'code' (status known)"""
    fields = ("cmd", "conf", "envs", "futs", "child", "streams", "item", "polled", "why", "exit", "ended", "got")
    init = (None, (), (0, 0), (), None, (("stdout", None), ("stderr", None)), None, frozenset(), None, None, False, None)

    def __init__(self, P, props, what):
        super().__init__(props)
        self.P = P
        self.what = what
        self.ad = q.adt(P, "Command", CR)
        self.sender = mk("arg", "sender")
        F = lambda n: wf.field_of(P, self.ad, me, n)
        self.f = {n: F(n) for n in ("command", "current_dir", "envs")}
        self.kinds = kindname(P)

    def witness(self, E, st, L):
        return L is self.f["envs"]

    def fut(self, st, l):
        for x, k in self.g(st, "futs"):
            if x is l:
                return k
        return None

    def new(self, E, st, c, k):
        """a future (or value) of kind k"""
        l = E.fresh(st, c)
        self.s(st, futs=tuple(x for x in self.g(st, "futs") if x[0] is not l and not wf.stale(x[0])) + ((l, k),))
        return Y(l)

    def on_call(self, E, st, c):
        n = c.name or ""
        if n == "arfx_models::cmd_env":
            return self.proc(E, st, c, "env")
        if n.startswith(PROC):
            return self.proc(E, st, c, n[len(PROC):])
        if n.startswith(SENDER):
            return self.out(E, st, c, n[len(SENDER):], [E.deep(st, x) for x in c.args])
        if n == "std::process::Stdio::piped":
            return Y(mk("const", "piped"))
        if n.startswith("std::process::Stdio::"):
            return Y(mk("const", n))
        if n in ("tokio::io::util::buf_reader::BufReader::new", "tokio::io::util::async_buf_read_ext::AsyncBufReadExt::lines"):
            return E.deep(st, c.args[0])
        if n == "tokio::io::util::buf_reader::BufReader::with_capacity":
            return E.deep(st, c.args[1])
        if n in NEXT:
            s = self.stream(E, st, c.args[0])
            if s is None:
                self.bad(st, "P32", "read:other", "lines are read from %s, not from an output of the process" % show(E.deep(st, c.args[0])), c)
                return "opaque"
            return self.new(E, st, c, s)
        if n == CHILD + "wait":
            return self.new(E, st, c, "wait")
        if n in (CHILD + "kill", CHILD + "start_kill"):
            self.bad(st, "P32", "killed", "the process is killed although nobody asked for it", c)
            return self.new(E, st, c, "kill")
        if n == "core::io::error::Error::kind":
            v = E.deep(st, c.args[0])
            it = self.g(st, "item")
            if self.g(st, "got") is not None and self.g(st, "got")[0] is label(v):
                return mk("a", KIND, self.kinds[self.g(st, "got")[1]], ())
            return Y(mk("pure", "kind", (v,)))
        if n in ("std::process::ExitStatus::code", "std::process::ExitStatus::success", "std::os::unix::process::ExitStatusExt::signal",
                 "std::process::ExitStatus::exit_ok"):
            return self.code(E, st, c, n.rsplit("::", 1)[1])
        return None

    def stream(self, E, st, v):
        l = label(E.deep(st, v))
        ch = self.g(st, "child")
        while l is not None and l.k == "f" and l.a[2] == "Some.0":
            l = l.a[0]
        if l is not None and l.k == "f" and l.a[2] in ("stdout", "stderr") and ch is not None and l.a[0] is ch:
            return l.a[2]
        return None

    # --- the process to start
    def proc(self, E, st, c, m):
        a = [E.deep(st, x) for x in c.args]
        if m == "new":
            l = E.fresh(st, c)
            self.s(st, cmd=l, conf=(("program", a[0]),), envs=(0, 0))
            return Y(l)
        if label(a[0]) is not self.g(st, "cmd") or self.g(st, "cmd") is None:
            self.bad(st, "P33", "process:other", "%s() of another process is called" % m, c)
            return "opaque"
        conf = self.g(st, "conf")
        if m in ("arg", "current_dir", "stdout", "stderr", "kill_on_drop", "stdin"):
            self.s(st, conf=conf + ((m, a[1]),))
            return c.args[0]
        if m == "args":
            v = a[1]
            if v.k in ("v", "it") and all(s[0] == "one" for s in v.a[0]):
                self.s(st, conf=conf + tuple(("arg", s[1]) for s in v.a[0]))
            else:
                self.s(st, conf=conf + (("args", v),))
            return c.args[0]
        if m == "env":
            n, o = self.g(st, "envs")
            k = label(a[1])
            k, v = label(unwrap(a[1])), label(unwrap(a[2]))
            if k is None or v is None or k.k != "f" or v.k != "f" or k.a[1] != 0 or v.a[1] != 1 or k.a[0] is not v.a[0] or not self.env(k.a[0]):
                self.bad(st, "P33", "env:other", "the process gets the variable %s=%s, which the command does not have" % (show(a[1]), show(a[2])), c)
            elif k.a[0].k == "wit":
                n = min(n + 1, 2)
            self.s(st, envs=(n, o))
            return c.args[0]
        if m == "envs":
            if same_as(a[1], self.f["envs"]) or a[1].k in ("v", "it") and a[1].a[0] == (("all", self.f["envs"]),):
                self.s(st, envs=(3, 0))
            elif a[1].k in ("v", "it", "a"):
                return E.enter(st, c, self.P.bodies["arfx_models::cmd_envs"], c.args)
            else:
                self.bad(st, "P33", "env:other", "the process gets the variables %s" % show(a[1]), c)
            return c.args[0]
        if m in ("spawn", "output", "status"):
            self.check(E, st, c, m)
            l = E.fresh(st, c)
            if m == "spawn":
                s1 = st.copy()
                ch = fld(l, 0, "Ok.0")
                self.s(s1, child=ch, streams=tuple((s, "open" if self.conf(s1, s) is Y(mk("const", "piped")) else "unread") for s in ("stdout", "stderr")))
                self.s(st, why="it could not be started")
                return E.fin(s1, c, ok(Y(ch))) + E.fin(st, c, err(Y(fld(l, 0, "Err.0"))))
            self.s(st, futs=self.g(st, "futs") + ((l, m),))
            return Y(l)
        if m in ("as_std", "get_current_dir"):
            return None
        self.bad(st, "P33", "process:" + m, "the process is changed by %s(%s)" % (m, ", ".join(map(show, a[1:]))), c)
        return c.args[0]

    def env(self, l):
        while l.k == "old":
            l = l.a[0]
        return l.k in ("el", "wit") and wf.elem_src(l.a[0]) is self.f["envs"]

    def conf(self, st, n):
        v = [x for k, x in self.g(st, "conf") if k == n]
        return v[-1] if v else None

    def check(self, E, st, c, m):
        """the process about to start is the one the command describes"""
        conf = self.g(st, "conf")
        if self.g(st, "child") is not None:
            self.bad(st, "P33", "process:twice", "the command is started twice", c)
        args = [v for k, v in conf if k in ("arg", "args")]
        if self.conf(st, "program") not in (S("sh"), S("/bin/sh"), S("bash"), S("/bin/bash")) or [unwrap(x) for x in args] != [S("-c"), Y(self.f["command"])]:
            self.bad(st, "P33", "process:what", "the process runs %s %s instead of the command" % (show(self.conf(st, "program")), ", ".join(map(show, args))), c)
        d = self.f["current_dir"]
        n = E.fact(st, mk("discr", d))
        v = self.conf(st, "current_dir")
        if v is None and n != 0:
            self.bad(st, "P33", "process:dir", "the process is not put into the command's directory", c)
        elif v is not None and unwrap(v) is not Y(fld(d, 0, "Some.0")):
            self.bad(st, "P33", "process:dir", "the process is put into %s" % show(v), c)
        n, _ = self.g(st, "envs")
        if E.fact(st, mk("pure", "empty", (Y(self.f["envs"]),))) == 1:
            self.did("P33", "no-env")
        elif n not in (1, 3):
            self.bad(st, "P33", "env:missed", "a variable of the command is given to the process %d times" % n, c)
        else:
            self.did("P33", "env")
        self.did("P33", "process")
        if m == "spawn":
            for s in ("stdout", "stderr"):
                if self.conf(st, s) is not Y(mk("const", "piped")):
                    self.bad(st, "P32", "pipe:" + s, "the process's %s is not read" % s, c)
            if self.conf(st, "kill_on_drop") is not K(1):
                self.bad(st, "P37", "orphan", "the process outlives the step when the step is cancelled or times out (kill_on_drop is %s)" % (
                    show(self.conf(st, "kill_on_drop")) if self.conf(st, "kill_on_drop") else "not set"), c)
            self.did("P37", "killed-with-step")
        elif self.what == "run":
            self.bad(st, "P32", "silent", "the process's output is not reported while it runs (%s)" % m, c)

    def on_spawn(self, E, st, c, fut):
        return "inline"

    # --- facts
    def on_fact(self, E, st, l, n):
        # the pipes asked for exist
        if st.auto and l.k == "discr" and n == 0:
            f = l.a[0]
            ch = self.g(st, "child")
            if f.k == "f" and f.a[2] in ("stdout", "stderr") and ch is not None and f.a[0] is ch and dict(self.g(st, "streams"))[f.a[2]] == "open":
                return False
        return True

    # --- reading
    def setstream(self, st, s, v):
        self.s(st, streams=tuple((k, v if k == s else x) for k, x in self.g(st, "streams")))

    def settled(self, st, what, c=None):
        it = self.g(st, "item")
        if it is not None:
            self.bad(st, "P32", "lost:" + it[0], "the command %s without having reported the %s it read" % (what, "line" if it[1] is not None else "problem"), c)
        self.s(st, item=None, got=None)

    def on_pending(self, E, st, l, c):
        k = self.fut(st, l)
        if k:
            self.s(st, polled=self.g(st, "polled") | {k})

    def on_yield(self, E, st):
        self.settled(st, "waits")
        for s, v in self.g(st, "streams"):
            if v == "open" and s not in self.g(st, "polled"):
                self.bad(st, "P32", "wait:" + s, "the command waits without reading %s, whose lines are held up (and the process with them once the pipe is full)" % s)
        self.did("P32", "wait")
        self.s(st, polled=frozenset())

    def on_await(self, E, st, l, c):
        k = self.fut(st, l)
        o = mk("out", l)
        if k in ("stdout", "stderr"):
            self.settled(st, "reads on", c)
            if dict(self.g(st, "streams"))[k] == "eof":
                self.bad(st, "P32", "read:past-end:" + k, "%s is read after its end" % k, c)
            r = []
            line = fld(fld(o, 0, "Ok.0"), 0, "Some.0")
            s1 = st.copy()
            self.s(s1, item=(k, line), polled=frozenset())
            r.append((s1, ok(some(Y(line)))))
            s2 = st.copy()
            self.setstream(s2, k, "eof")
            self.s(s2, polled=frozenset())
            r.append((s2, ok(NONE)))
            e = fld(o, 0, "Err.0")
            for kind in ("InvalidData", "Other"):
                s3 = st.copy()
                self.s(s3, item=(k, None) if kind == "InvalidData" else None, got=(e, kind), polled=frozenset())
                if kind != "InvalidData":
                    self.setstream(s3, k, "broken")
                r.append((s3, err(Y(e))))
            return r
        if k == "wait":
            self.settled(st, "waits for the process to end", c)
            for s, v in self.g(st, "streams"):
                if v == "open" and not E.in_select(st):
                    self.bad(st, "P32", "unread:" + s, "the command waits for the process to end before %s was read to its end" % s, c)
            s1 = st.copy()
            self.s(s1, why="it could not be waited for")
            r = [(s1, err(Y(fld(o, 0, "Err.0"))))]
            return r + self.statuses(st, fld(o, 0, "Ok.0"), lambda v: ok(v))
        if k in ("output", "status"):
            s1 = st.copy()
            self.s(s1, why="it could not be started")
            r = [(s1, err(Y(fld(o, 0, "Err.0"))))]
            x = fld(o, 0, "Ok.0")
            if k == "status":
                return r + self.statuses(st, x, lambda v: ok(v))
            return r + self.statuses(st, fld(x, 0, "status"), lambda v: ok(Y(x)))
        return None

    def statuses(self, st, l, f):
        r = []
        for x in ("none", "zero", "other"):
            s2 = st.copy()
            self.s(s2, exit=(l, x))
            if x == "other":
                s2.facts[self.num(l)] = ("!", frozenset({0}))
            r.append((s2, f(Y(l))))
        return r

    def num(self, l):
        return fld(mk("pure", "code", (Y(l),)), 0, "Some.0")

    def code(self, E, st, c, m):
        l = label(E.deep(st, c.args[0]))
        x = self.g(st, "exit")
        if x is None or l is not x[0]:
            return None
        if m == "success":
            return K(1 if x[1] == "zero" else 0)
        if m == "exit_ok":
            return ok(UNIT) if x[1] == "zero" else err(Y(mk("pure", "exit_ok", (Y(l),))))
        if m == "signal":
            return some(Y(fld(mk("pure", "signal", (Y(l),)), 0, "Some.0"))) if x[1] == "none" else NONE
        return {"none": NONE, "zero": some(K(0)), "other": some(Y(self.num(l)))}[x[1]]

    # --- reporting
    def out(self, E, st, c, m, a):
        if m in ("is_ended",):
            return K(1 if self.g(st, "ended") else 0)
        if m not in ("log", "error", "end", "succeeded", "cancelled", "failed", "timeout"):
            return None
        if a[0] is not Y(self.sender) and not same_as(a[0], self.sender):
            self.bad(st, "P32", "stream:other", "%s() is called on %s, not on the stream of the step" % (m, show(a[0])), c)
        it = self.g(st, "item")
        if m in ("log", "error"):
            msg = unwrap(a[1])
            if self.g(st, "ended"):
                self.bad(st, "P32", "log:late", "a line is reported after the end of the stream, where it is lost", c)
            if it is None:
                g = self.g(st, "got")
                if not (m == "error" and g is not None and q.mentions(a[1], g[0])):
                    self.bad(st, "P32", "log:own", "the command itself reports %s(%s)" % (m, show(msg)), c)
                return UNIT
            k, line = it
            if line is None:
                if m != "error":
                    self.bad(st, "P32", "log:kind:" + k, "a line that cannot be decoded is reported as an ordinary one", c)
            else:
                if msg is not Y(line):
                    self.bad(st, "P32", "log:changed", "a line of the process becomes %s" % show(msg), c)
                if (m == "log") != (k == "stdout"):
                    self.bad(st, "P32", "log:kind:" + k, "a line of %s is reported by %s()" % (k, m), c)
                self.did("P32", "line:" + k)
            self.s(st, item=None)
            return UNIT
        v = outcome(self.P, m, a[1:])
        x = self.g(st, "exit")
        r = result(self.P)
        self.settled(st, "ends the stream", c)
        if self.g(st, "ended"):
            self.bad(st, "P32", "end:twice", "the stream is ended twice", c)
        if any(s == "open" for _, s in self.g(st, "streams")):
            self.bad(st, "P32", "end:early", "the stream is ended before all output was read", c)
        name = r["variants"][v.a[1]]["name"] if v.k == "a" and v.a[0] == r["name"] else None
        if x is None:
            self.bad(st, "P32", "end:unknown", "the stream ends with %s before the process's exit status is known" % show(v), c)
        elif x[1] == "zero":
            if name != "Succeeded":
                self.bad(st, "P32", "end:zero", "a process that exits with 0 ends with %s" % show(v), c)
        elif x[1] == "other":
            if name != "Failed" or v.a[2][0] is not Y(self.num(x[0])):
                self.bad(st, "P32", "end:other", "a process that exits with another code than 0 ends with %s" % show(v), c)
        elif name != "Failed" or v.a[2][0] is K(0):
            self.bad(st, "P32", "end:none", "a process that was killed ends with %s" % show(v), c)
        if x is not None:
            self.did("P32", "end:" + x[1])
        self.s(st, ended=True)
        return UNIT

    def on_exit(self, E, st, v):
        self.settled(st, "returns")
        good = v.k == "a" and v.a[0] == "core::result::Result" and v.a[1] == 0
        if self.what == "exec":
            return self.execd(E, st, v, good)
        if self.g(st, "why") is None:
            if not self.g(st, "ended") or not good:
                self.bad(st, "P32", "unended", "the command returns %s%s" % (show(v), "" if self.g(st, "ended") else " without having reported how the process ended"))
            self.did("P32", "done")
        else:
            if good and not self.g(st, "ended"):
                self.bad(st, "P32", "hidden", "the command reports success although %s" % self.g(st, "why"))
            self.did("P32", "failed")

    def execd(self, E, st, v, good):
        x = self.g(st, "exit")
        if self.g(st, "why") is not None or x is None:
            if good:
                self.bad(st, "P32", "exec:hidden", "exec returns %s although %s" % (show(v), self.g(st, "why") or "no process was started"))
            self.did("P32", "exec:failed")
        elif good:
            t = v.a[2][0]
            src = fld(x[0].a[0], 0, "stdout") if x[0].k == "f" else None
            if x[1] != "zero":
                self.bad(st, "P32", "exec:ok", "exec returns %s although the process failed" % show(v))
            if not any(l.k == "f" and l.a[2] == "stdout" and l.a[0] is x[0].a[0] for l in q.labels(t)) or any(l.k == "f" and l.a[2] == "stderr" for l in q.labels(t)):
                self.bad(st, "P32", "exec:what", "exec returns %s, not what the process wrote to its stdout" % show(t))
            self.did("P32", "exec:ok")
        else:
            if x[1] == "zero" and not any(l.k == "pure" and "utf8" in str(l.a[0]) and E.fact(st, mk("discr", l)) == 1 for l in list(q.labels(v)) + [k.a[0] for k in st.facts if k.k == "discr"]):
                self.bad(st, "P32", "exec:err", "exec fails with %s although the process succeeded" % show(v))
            self.did("P32", "exec:err")

    def on_panic(self, E, st, what, line):
        self.bad(st, "P32", "panic:" + self.what, "Command::%s can panic: %s" % (self.what, what))


def process(P, R, props, which=("run", "exec")):
    r = None
    for m in which:
        bs = q.method(P, CR, "Command", m)
        if not R.need(bs, "Command::" + m):
            continue
        r = Process(P, props, m)
        R.run(P, r, bs[0], args=[Y(me)] + ([Y(r.sender)] if m == "run" else []), is_async=True, auto=r.start())
    return r


# ------------------------------------------------------------------------------------------------ paths and command lines
def comps(v):
    """the components a path is joined from"""
    v = pathof(v)
    if v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "join" and len(v.a[0].a[1]) == 2:
        return comps(v.a[0].a[1][0]) + comps(v.a[0].a[1][1])
    if v.k == "s" and "/" in v.a[0].strip("/"):
        return [S(x) for x in v.a[0].split("/") if x]
    if v.k == "fmt":
        out = [[]]
        for x in v.a[0]:
            if x.k == "s":
                for i, t in enumerate(x.a[0].split("/")):
                    if i:
                        out.append([])
                    if t:
                        out[-1].append(S(t))
            else:
                out[-1].append(x)
        r = []
        for o in out:
            r += comps(o[0]) if len(o) == 1 else [mk("fmt", tuple(o))] if o else []
        return r
    return [v]


def pathof(v):
    while v.k == "y":
        l = v.a[0]
        if l.k == "f" and l.a[2] in ("Some.0", "Ok.0") and l.a[0].k == "pure" and l.a[0].a[0] in ("to_str", "into_string"):
            v = l.a[0].a[1][0]
        elif l.k == "pure" and len(l.a[1]) == 1 and (str(l.a[0]).startswith("into") or l.a[0].split("::")[-1] in (
                "to_str", "as_path", "to_path_buf", "new", "from", "to_string", "to_string_lossy", "display", "String", "as_os_str", "into_os_string", "inner")):
            v = l.a[1][0]
        else:
            break
    return v


class Line:
    """a command line: tokens, each a tuple of texts and values; loose: what loops over earlier elements add"""

    def __init__(self, v):
        self.tok = [[]]
        self.loose = {}
        self.quoted = False
        self.ok = True
        self.add(v)
        self.tok = [tuple(merge(t)) for t in self.tok if t]

    def add(self, v):
        v = pathof(v)
        if v.k == "fmt":
            for x in v.a[0]:
                self.add(x)
        elif v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "join" and len(v.a[0].a[1]) == 2 and v.a[0].a[1][0].k == "v":
            for i, s in enumerate(v.a[0].a[1][0].a[0]):
                if i:
                    self.add(v.a[0].a[1][1])
                if s[0] == "one":
                    self.add(s[1])
                else:
                    self.tok[-1].append(("loose", s))
        elif v.k == "a" and len(v.a[2]) == 1:
            self.add(v.a[2][0])
        elif v.k == "s":
            for ch in v.a[0]:
                if ch in "\"'":
                    self.quoted = not self.quoted
                elif ch == " " and not self.quoted:
                    self.tok.append([])
                else:
                    self.tok[-1].append(ch)
        else:
            self.tok[-1].append(pathof(v))


def merge(t):
    r = []
    for x in t:
        if type(x) is str and r and type(r[-1]) is str:
            r[-1] += x
        else:
            r.append(x)
    return r


FLAGS = {"-v": "volume", "--volume": "volume", "-e": "env", "--env": "env", "-w": "workdir", "--workdir": "workdir", "--entrypoint": "entrypoint",
         "--name": "name", "--security-opt": "security"}
PLAIN = ("--tty", "-t", "--rm", "--init")


def options(line):
    """(options by kind, loose values, image, what is wrong)"""
    o = {k: [] for k in FLAGS.values()}
    o["plain"] = []
    loose = []
    t = line.tok
    if t[:2] != [("docker",), ("run",)]:
        return o, loose, None, "it is not `docker run`"
    i = 2
    image = None
    while i < len(t):
        x = t[i]
        i += 1
        if type(x[0]) is tuple and x[0][0] == "loose":
            loose.append(x[0][1])
            continue
        if type(x[0]) is str and x[0].startswith("-") and image is None:
            f, eq, rest = x[0].partition("=")
            if f in PLAIN and not eq:
                o["plain"].append(f)
            elif f in FLAGS:
                if eq:
                    o[FLAGS[f]].append(tuple(([rest] if rest else []) + list(x[1:])))
                elif i >= len(t):
                    return o, loose, image, "%s has no value" % f
                elif type(t[i][0]) is tuple:
                    loose.append(t[i][0][1])
                    i += 1
                else:
                    o[FLAGS[f]].append(t[i])
                    i += 1
            else:
                return o, loose, image, "it has the option %s" % f
        elif image is None:
            image = x
        else:
            return o, loose, image, "the container is told to run something else than its entrypoint: %s" % text(x)
    return o, loose, image, None


def text(t):
    return " ".join(x if type(x) is str else show(x) for x in t)


def split(t):
    """a `host:container` token: both sides"""
    a, b, seen = [], [], False
    for x in t:
        if type(x) is str and not seen and ":" in x:
            p, _, r = x.partition(":")
            a += [p] if p else []
            b += [r] if r else []
            seen = True
        else:
            (b if seen else a).append(x)
    return tuple(a), tuple(b) if seen else None


def executors(P):
    r = []
    for (t, a), ms in sorted(P.impls.items()):
        if t.endswith("executors::Executor") and ms.get("execute") in P.bodies and a.startswith(CR):
            r.append((a, P.bodies[ms["execute"]]))
    return r


FS = ("tokio::fs::", "std::fs::")
WRITE = "tokio::io::util::async_write_ext::AsyncWriteExt::"


class Exec(wf.AutoRule):
    """Executor::execute of one executor.
    sig: the signal the step is known to have; ended: what ended the stream; run: None | 'going' | 'done' | 'failed'; files: (file, path, options, text, state)"""
    fields = ("futs", "polled", "sig", "asked", "nosig", "ended", "run", "dirs", "files", "opts", "why", "killed", "name", "gone")
    init = ((), frozenset(), None, False, frozenset(), None, None, (), (), (), None, False, None, False)
    flat = (ENV,)

    def __init__(self, P, props, adt, focus=None):
        super().__init__(props)
        self.P = P
        self.adt = adt
        self.docker = "Docker" in adt
        self.focus = focus
        self.ctx = mk("arg", "ctx")
        self.ev = mk("arg", "event")
        self.sender = mk("arg", "sender")
        C = q.adt(P, "Context", "astro_run")
        cmd = wf.field_of(P, C, self.ctx, "command")
        cad = [a for n, a in P.adts.items() if n.startswith("astro_run::") and n.endswith("::Command") and any(f[0] == "run" for f in a["variants"][0]["fields"])][0]
        g = lambda n: wf.field_of(P, cad, cmd, n)
        self.signal = wf.field_of(P, C, self.ctx, "signal")
        self.runtext, self.envs, self.container = g("run"), g("environments"), g("container")
        co = q.adt(P, "ContainerOptions", "astro_run")
        some0 = fld(self.container, 0, "Some.0")
        self.image = wf.field_of(P, co, some0, "name")
        self.volumes = wf.field_of(P, co, some0, "volumes")
        self.secopts = wf.field_of(P, co, some0, "security_opts")
        sid = q.adt(P, "StepId", "astro_run")
        self.ids = [[Y(fld(l, i, sid["variants"][0]["fields"][i][0])) for i in range(3)] for l in (g("id"), wf.field_of(P, C, self.ctx, "id"))]
        ex = P.adts[adt]
        self.wd = Y(wf.field_of(P, ex, me, [f[0] for f in ex["variants"][0]["fields"] if "PathBuf" in f[1]][0]))
        te = q.adt(P, "TriggerEvent", "astro_run")
        e = fld(self.ev, 0, "Some.0")
        self.repo = [Y(wf.field_of(P, te, e, n)) for n in ("repo_owner", "repo_name")]
        self.sg = q.adt(P, "Signal", "astro_run")
        self.cad = q.adt(P, "Command", CR)

    # --- which elements are tracked
    def lists(self):
        return {"env": self.envs, "volume": fld(self.volumes, 0, "Some.0"), "security": fld(self.secopts, 0, "Some.0")}

    def witness(self, E, st, L):
        return self.focus is not None and L is self.lists()[self.focus]

    def elem(self, l, kind):
        while l.k == "old":
            l = l.a[0]
        return l.k in ("el", "wit") and wf.elem_src(l.a[0]) is self.lists()[kind]

    def on_fact(self, E, st, l, n):
        # the keys of a map differ from one another
        if l.k == "pure" and l.a[0] == "eq" and n == 1:
            a, b = (label(pathof(x)) for x in l.a[1])
            if a is not None and b is not None and a is not b and a.k == "f" and b.k == "f" and a.a[1] == 0 and b.a[1] == 0 and self.elem(a.a[0], "env") and self.elem(b.a[0], "env"):
                return False
        return True

    # --- bookkeeping
    fut = Process.fut
    new = Process.new

    def bases(self, E, st):
        n = E.fact(st, mk("discr", self.ev))
        return [[self.wd] + (self.repo if n == 1 else [])] if n is not None else [[self.wd], [self.wd] + self.repo]

    def layout(self, E, st, v, tail):
        """v is the path <working directory>[/owner/repo]/<workflow>/<job>/tail of the step"""
        cs = comps(v)
        for b in self.bases(E, st):
            for i in self.ids:
                if len(self.bases(E, st)) == 1 and cs == b + i[:2] + ([i[2]] if tail is None else [S(t) for t in tail]):
                    return True
        return False

    def on_call(self, E, st, c):
        n = c.name or ""
        if n in (CR + "::command::Command::run", CR + "::command::Command::exec"):
            return self.command(E, st, c, n.rsplit("::", 1)[1])
        if n.startswith(SENDER):
            return self.out(E, st, c, n[len(SENDER):], [E.deep(st, x) for x in c.args])
        if n.startswith(SIGNAL):
            m = n[len(SIGNAL):]
            if label(E.deep(st, c.args[0])) is not self.signal and not same_as(E.deep(st, c.args[0]), self.signal):
                self.bad(st, "P36", "signal:other", "the executor looks at the signal %s, not the step's" % show(E.deep(st, c.args[0])), c)
                return "opaque"
            if m in ("is_cancelled", "is_timeout"):
                want = "Cancel" if m == "is_cancelled" else "Timeout"
                if self.g(st, "sig") is not None:
                    return K(1 if self.g(st, "sig") == want else 0)
                s1 = st.copy()
                self.s(s1, sig=want)
                if self.g(st, "run") is None:
                    self.s(s1, asked=True)
                    self.s(st, nosig=self.g(st, "nosig") | {want})
                return E.fin(s1, c, K(1)) + E.fin(st, c, K(0))
            if m == "recv":
                return self.new(E, st, c, "recv")
            if m in ("cancel", "timeout"):
                self.bad(st, "P36", "signal:set", "the executor signals the step itself", c)
                return "opaque"
            return None
        if n.startswith(FS) or n.startswith(WRITE):
            return self.fs(E, st, c, n)
        return None

    def is_stop(self, c):
        return True

    def on_spawn(self, E, st, c, fut):
        self.bad(st, "P37", "detached", "the executor leaves work to a task of its own, which goes on after the step was cancelled", c)
        return "inline"

    # --- files
    def fs(self, E, st, c, n):
        m = n.rsplit("::", 1)[1]
        a = [E.deep(st, x) for x in c.args]
        sync = n.startswith("std::")
        if m in ("new",) and "open_options" in n.lower() or m == "options":
            l = E.fresh(st, c)
            self.s(st, opts=((l, ()),))
            return Y(l)
        if "open_options" in n and m in ("create", "truncate", "write", "append", "mode", "read", "create_new"):
            for l, o in self.g(st, "opts"):
                if label(a[0]) is l:
                    self.s(st, opts=((l, o + ((m, a[1]),)),))
            return c.args[0]
        if "open_options" in n and m == "open" or n.endswith("File::create"):
            o = dict(x for l, os in self.g(st, "opts") for x in os) if m == "open" else {"create": K(1), "truncate": K(1), "write": K(1)}
            return self.op(E, st, c, ("open", a[1 if m == "open" else 0], tuple(sorted(o.items(), key=str))), sync)
        if m == "write" and "::fs::" in n:
            return self.op(E, st, c, ("whole", a[0], a[1]), sync)
        if m == "set_permissions":
            return self.op(E, st, c, ("chmod", a[0], a[1]), sync)
        if m in ("write_all", "flush", "sync_all", "sync_data", "shutdown", "write"):
            return self.op(E, st, c, (m, a[0], a[1] if len(a) > 1 else None), sync)
        if m in ("create_dir_all", "create_dir"):
            return self.op(E, st, c, ("mkdir", a[0], None), sync)
        if m in ("remove_dir_all", "remove_dir", "remove_file", "rename"):
            self.removing(E, st, c, m, a)
            return self.op(E, st, c, ("remove", a[0], None), sync)
        if m in ("metadata", "try_exists", "exists", "canonicalize", "symlink_metadata", "read_dir"):
            return None
        self.bad(st, "P35", "fs:" + m, "the executor calls %s" % n, c)
        return None

    def op(self, E, st, c, k, sync):
        if sync:
            l = E.fresh(st, c)
            r = []
            for s2, v in self.opdone(E, st, l, k, c):
                r += E.fin(s2, c, v)
            return r
        return self.new(E, st, c, k)

    def opdone(self, E, st, o, k, c):
        """outcomes of an operation on files"""
        m, p, x = k
        s1 = st.copy()
        self.s(s1, why="a file operation failed")
        r = [(s1, err(Y(fld(o, 0, "Err.0"))))]
        okv = Y(fld(o, 0, "Ok.0"))
        fs = self.g(st, "files")
        if m == "open":
            self.s(st, files=tuple(f for f in fs if f[0] is not okv.a[0]) + ((okv.a[0], p, x, (), "clean"),))
            if not any(self.layout(E, st, p, None) or comps(d) == comps(p)[:-1] for d in self.g(st, "dirs")):
                self.bad(st, "P35", "dir", "the script is written to %s, a directory that may not exist" % show(p), c)
        elif m == "whole":
            self.s(st, files=fs + ((o, p, (("create", K(1)), ("truncate", K(1)), ("write", K(1))), (x,), "clean"),))
            if not any(comps(d) == comps(p)[:-1] for d in self.g(st, "dirs")):
                self.bad(st, "P35", "dir", "the script is written to %s, a directory that may not exist" % show(p), c)
        elif m == "chmod":
            md = x
            while md.k == "y" and md.a[0].k == "pure" and len(md.a[0].a[1]) == 1:
                md = md.a[0].a[1][0]
            self.s(st, files=tuple(f[:2] + (f[2] + (("mode", md),),) + f[3:] if comps(f[1]) == comps(p) else f for f in fs))
        elif m in ("write_all", "write"):
            self.s(st, files=tuple(f[:3] + (f[3] + ((x,) if m == "write_all" else (Y(mk("const", "part of")), x)), "dirty") if Y(f[0]) is p else f for f in fs))
        elif m in ("flush", "sync_all", "sync_data", "shutdown"):
            self.s(st, files=tuple(f[:4] + ("clean",) if Y(f[0]) is p else f for f in fs))
        elif m == "mkdir":
            self.s(st, dirs=self.g(st, "dirs") + (p,))
        elif m == "remove":
            self.s(st, gone=True)
        return r + [(st, ok(okv if m == "open" else UNIT))]

    def removing(self, E, st, c, m, a):
        if not (self.layout(E, st, a[0], None) or m == "remove_file" and self.layout(E, st, mkparent(a[0]), None)):
            self.bad(st, "P39", "removed", "the executor removes %s, which is not the step's own directory" % show(a[0]), c)
        elif self.g(st, "run") == "going" and self.g(st, "sig") is None:
            self.bad(st, "P39", "removed:early", "the executor removes the step's directory while its command runs", c)
        else:
            self.did("P39", "own-removed")

    # --- commands
    def command(self, E, st, c, m):
        v = E.deep(st, E.full(st, c.args[0]))
        if m == "exec":
            return self.new(E, st, c, ("exec", v))
        s = E.deep(st, c.args[1])
        if s is not Y(self.sender) and not same_as(s, self.sender):
            self.bad(st, "P36", "stream", "the command reports to %s, not to the stream of the step" % show(s), c)
        if self.g(st, "run") is not None:
            self.bad(st, "P36", "run:twice", "the step's command is run twice", c)
        if self.g(st, "sig") is not None:
            self.bad(st, "P36", "run:signalled", "the command of a step that is cancelled or timed out already is started", c)
        for x in self.sg["variants"]:
            if self.g(st, "sig") is None and x["name"] not in self.g(st, "nosig"):
                self.bad(st, "P36", "run:unasked:" + x["name"], "the command is started without having looked whether the step's signal is %s already" % x["name"], c)
        self.did("P36", "run")
        part = {f[0]: x for f, x in zip(self.cad["variants"][0]["fields"], v.a[2])} if v.k == "a" else {}
        if len(part) < 3:
            self.bad(st, "P33", "command", "the executor runs %s" % show(v), c)
            self.bad(st, "P34", "command", "the executor runs %s" % show(v), c)
            return self.new(E, st, c, "run")
        if self.docker:
            self.container_cmd(E, st, c, part)
        else:
            self.host_cmd(E, st, c, part)
        if self.focus is not None:
            return "kill"
        self.s(st, run="going")
        return self.new(E, st, c, "run")

    def pair(self, k, x, kind):
        """k, x are the two parts of one element of a map or list of pairs"""
        k, x = label(pathof(k)), label(pathof(x))
        if k is None or x is None or k.k != "f" or x.k != "f" or k.a[1] != 0 or x.a[1] != 1 or k.a[0] is not x.a[0] or not self.elem(k.a[0], kind):
            return None
        return k.a[0]

    def host_cmd(self, E, st, c, part):
        if unwrap(part["command"]) is not Y(self.runtext):
            self.bad(st, "P33", "command", "the step runs %s instead of its command" % show(part["command"]), c)
        d = part["current_dir"]
        if not (d.k == "a" and d.a[1] == 1 and self.layout(E, st, d.a[2][0], ("data",))):
            self.bad(st, "P33", "dir", "the step runs in %s, not in its job's directory" % show(d), c)
            self.bad(st, "P39", "dir", "the step runs in %s, not in its job's directory" % show(d), c)
        elif comps(d.a[2][0]) not in [comps(x) for x in self.g(st, "dirs")]:
            self.bad(st, "P33", "dir:missing", "the step runs in a directory that may not exist", c)
        self.did("P39", "job-dir")
        v = part["envs"]
        n = 0
        good = v.k == "v"
        for x in unhash_segs(v.a[0]) if good else ():
            e = self.pair(x[1].a[0][0], x[1].a[0][1], "env") if x[0] == "one" and x[1].k == "t" and len(x[1].a[0]) == 2 else None
            if e is None:
                good = False
            elif e.k == "wit":
                n += 1
        if not good:
            self.bad(st, "P33", "env", "the step's variables are %s" % show(v), c)
        elif self.focus == "env":
            if E.fact(st, mk("pure", "empty", (Y(self.envs),))) == 1:
                self.did("P33", "no-env")
            elif n != 1:
                self.bad(st, "P33", "env:missed", "a variable of the step is given %d times to its command" % n, c)
            else:
                self.did("P33", "env-given")
        self.did("P33", "host")

    def container_cmd(self, E, st, c, part):
        line = Line(part["command"])
        o, loose, image, wrong = options(line)
        b = lambda key, msg: self.bad(st, "P34", key, msg, c)
        if wrong or line.quoted:
            b("line", "the container is started with %s: %s" % (show(part["command"]), wrong or "a quote is not closed"))
            return
        one = lambda k: o[k][0] if len(o[k]) == 1 else None
        for k in ("entrypoint", "workdir", "name"):
            if one(k) is None:
                b(k, "the container gets %d %s options" % (len(o[k]), k))
        if "--rm" not in o["plain"]:
            b("rm", "the container is not removed after the step")
        n = E.fact(st, mk("discr", self.container))
        want = {0: ("ubuntu",), 1: (Y(self.image),)}.get(n)
        if image != want:
            b("image", "the container is made of %s" % (text(image) if image else "no image"))
        if not any(layoutname(one("name") or (), i) for i in self.ids):
            b("name", "the container's name is %s, which other steps may have as well" % text(one("name") or ()))
        self.s(st, name=one("name"))
        # mounts
        script = data = caches = None
        for t in o["volume"]:
            h, k = split(t)
            if len(h) == 1 and type(h[0]) is V and k is not None:
                if k == one("entrypoint"):
                    script = h[0]
                    continue
                if k == one("workdir"):
                    data = h[0]
                    continue
                if k == ("/home/work/caches",) and len(self.bases(E, st)) == 1 and comps(h[0]) == self.bases(E, st)[0] + [S("caches")]:
                    caches = h[0]
                    continue
            if not self.item(h, k, "volume"):
                b("volume:other", "the container gets the volume %s" % text(t))
        if data is None or not self.layout(E, st, data, ("data",)):
            b("volume:data", "the job's directory is not mounted as the container's working directory (but %s)" % (show(data) if data is not None else "nothing"))
            self.bad(st, "P39", "dir", "the step runs in %s, not in its job's directory" % (show(data) if data is not None else "nothing"), c)
        else:
            self.did("P39", "job-dir")
        if caches is None:
            b("volume:caches", "the cache directory is not mounted")
        for t in o["env"]:
            if not self.envtok(t):
                b("env:other", "the container gets the variable %s" % text(t))
        for t in o["security"]:
            if not (len(t) == 1 and type(t[0]) is V and self.elem(t[0].a[0], "security")):
                b("security:other", "the container gets the security option %s" % text(t))
        for s in loose:
            for x in unhash_segs((s,)):
                if x[0] != "one" or any(l.k == "wit" and not has_old_of(x[1], l) for l in q.labels(x[1])):
                    b("repeated", "an option is given any number of times: %s" % show(x[1]))
        self.did("P34", "container")
        if self.focus is not None:
            L = self.lists()[self.focus]
            here = [t for t in o[self.focus] if any(type(x) is V and any(l is mk("wit", L) for l in q.labels(x)) for x in t)]
            opt = {"volume": self.volumes, "security": self.secopts}.get(self.focus)
            if opt is not None and (n == 0 or E.fact(st, mk("discr", opt)) == 0) or E.fact(st, mk("pure", "empty", (Y(L),))) == 1:
                self.did("P34", "none:" + self.focus)
            elif self.focus == "volume" and self.nocolon(E, st, mk("wit", L)):
                self.did("P34", "no-mount")
            elif len(here) != 1:
                b(self.focus + ":missed", "one of the step's %s settings is given to the container %d times" % (self.focus, len(here)))
            else:
                self.did("P34", "given:" + self.focus)
        else:
            self.script(E, st, c, script)

    def nocolon(self, E, st, w):
        for l, f in st.facts.items():
            if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "split_once" and f == ("=", 0) and l.a[0].a[1][0] is Y(w):
                return True
        return False

    def item(self, h, k, kind):
        """host and container side of one configured volume"""
        L = None
        if k is not None and len(h) == 1 and len(k) == 1 and type(h[0]) is V and type(k[0]) is V:
            a, b = label(h[0]), label(k[0])
            if a is not None and b is not None and a.k == "f" and b.k == "f" and a.a[1] == 0 and b.a[1] == 1 and a.a[0] is b.a[0]:
                x = a.a[0]
                if x.k == "f" and x.a[0].k == "pure" and x.a[0].a[0] in ("split_once",):
                    v = x.a[0].a[1]
                    return v[0].k == "y" and self.elem(v[0].a[0], kind) and v[1] in (K(ord(":")), S(":"))
        elif k is None and len(h) == 1 and type(h[0]) is V:
            return h[0].k == "y" and self.elem(h[0].a[0], kind)
        return False

    def envtok(self, t):
        return len(t) == 3 and t[1] == "=" and type(t[0]) is V and type(t[2]) is V and self.pair(t[0], t[2], "env") is not None

    def script(self, E, st, c, path):
        """the script mounted as entrypoint is complete"""
        b = lambda key, msg: self.bad(st, "P35", key, msg, c)
        if path is None:
            b("mount", "nothing is mounted as the container's entrypoint")
            return
        if not self.layout(E, st, mkparent(path), None):
            self.bad(st, "P39", "script", "the script is %s, outside of the step's own directory" % show(path), c)
        fs = [f for f in self.g(st, "files") if comps(f[1]) == comps(path)]
        if len(fs) != 1:
            b("written", "the container starts although its entrypoint was written %d times" % len(fs))
            return
        f = fs[0]
        o = dict(f[2])
        if o.get("write", K(0)) is not K(1) or o.get("create", o.get("create_new", K(0))) is not K(1) or o.get("truncate", o.get("create_new", K(0))) is not K(1):
            b("open", "the script is opened without creating or emptying it, so older content may stay (%s)" % ", ".join("%s=%s" % (k, show(v)) for k, v in f[2]))
        md = o.get("mode")
        if md is None or md.k != "k" or md.a[0] & 0o500 != 0o500:
            b("mode", "the script is not executable (mode %s)" % (oct(md.a[0]) if md is not None and md.k == "k" else "unset"))
        if f[4] != "clean":
            b("flush", "the container may start before the script's last line is on disk")
        parts = []
        for x in f[3]:
            for y in (x.a[0] if x.k == "fmt" else (x,)):
                y = unwrap(y)
                t = y.a[0] if y.k in ("s", "b") else None
                if isinstance(t, (bytes, bytearray)):
                    t = t.decode("utf-8", "replace")
                if t is not None and parts and type(parts[-1]) is str:
                    parts[-1] += t
                else:
                    parts.append(t if t is not None else y)
        own = None
        for l, v in st.facts.items():
            if l.k == "pure" and l.a[0] == "starts_with" and unwrap(l.a[1][0]) is Y(self.runtext) and l.a[1][1] is S("#!") and v[0] == "=":
                own = v[1]
        good = parts == [Y(self.runtext)] if own == 1 else len(parts) == 2 and parts[1] is Y(self.runtext) and type(parts[0]) is str and \
            re.fullmatch(r"#!\s*/(usr/)?bin/(env )?(ba)?sh\n", parts[0]) is not None and own == 0
        if not good:
            b("text", "the script%s consists of %s" % ("" if own is None else " of a command %s an interpreter line" % ("with" if own else "without"), ", ".join(map(str, [x if type(x) is str else show(x) for x in parts])) or "nothing"))
        else:
            self.did("P35", "script:" + ("own" if own else "sh"))

    # --- waiting
    def on_pending(self, E, st, l, c):
        k = self.fut(st, l)
        if k in ("run", "recv"):
            self.s(st, polled=self.g(st, "polled") | {k})

    def on_yield(self, E, st):
        p = self.g(st, "polled")
        if self.g(st, "run") == "going" and "run" not in p or self.g(st, "run") != "going" and "recv" in p:
            self.bad(st, "P36", "wait:command", "the step waits for a signal alone, which may never come")
        if self.g(st, "run") == "going" and "recv" not in p:
            self.bad(st, "P36", "wait:signal", "the step waits without listening to its signal")
        self.did("P36", "wait")
        self.s(st, polled=frozenset())

    def on_await(self, E, st, l, c):
        k = self.fut(st, l)
        o = mk("out", l)
        if k == "run":
            if not E.in_select(st):
                self.bad(st, "P36", "wait:signal", "the step waits for its command without listening to its signal", c)
            self.s(st, polled=frozenset())
            if self.g(st, "sig") is not None and self.g(st, "run") == "going" and not self.docker:
                self.bad(st, "P36", "waits-on", "the step waits for its command although it was cancelled or timed out", c)
            s1 = st.copy()
            self.s(s1, run="failed")
            self.s(st, run="done", ended="command")
            return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(UNIT))]
        if k == "recv":
            if self.g(st, "run") != "going":
                self.bad(st, "P36", "wait:command", "the step waits for a signal although its command is not running", c)
            elif not E.in_select(st):
                self.bad(st, "P36", "wait:command", "the step waits for a signal alone, which may never come", c)
            r = []
            for i, v in enumerate(self.sg["variants"]):
                if self.g(st, "sig") in (None, v["name"]):
                    s2 = st.copy()
                    self.s(s2, sig=v["name"], polled=frozenset())
                    r.append((s2, mk("a", self.sg["name"], i, ())))
            return r
        if type(k) is tuple and k[0] == "exec":
            v = k[1]
            part = {f[0]: x for f, x in zip(self.cad["variants"][0]["fields"], v.a[2])} if v.k == "a" else {}
            t = Line(part.get("command", v)).tok
            nm = self.g(st, "name")
            if t[:2] in ([("docker",), ("kill",)], [("docker",), ("stop",)]) or t[:3] == [("docker",), ("rm",), ("-f",)]:
                if nm is None or t[-1] != nm:
                    self.bad(st, "P37", "kill:other", "the container %s is killed, the step's is %s" % (text(t[-1]), text(nm or ())), c)
                elif self.g(st, "sig") is None:
                    self.bad(st, "P37", "kill:unasked", "the container is killed although the step was not signalled", c)
                else:
                    self.s(st, killed=True)
                    self.did("P37", "container-killed")
            else:
                self.bad(st, "P33", "exec", "the executor runs %s" % show(v), c)
            return [(st.copy(), err(Y(fld(o, 0, "Err.0")))), (st, ok(Y(fld(o, 0, "Ok.0"))))]
        if type(k) is tuple:
            return self.opdone(E, st, o, k, c)
        return None

    # --- the stream
    def out(self, E, st, c, m, a):
        if m == "is_ended":
            return K(1 if self.g(st, "ended") else 0)
        if m in ("log", "error"):
            return UNIT
        if m not in ("end", "succeeded", "cancelled", "failed", "timeout"):
            return None
        if a[0] is not Y(self.sender) and not same_as(a[0], self.sender):
            self.bad(st, "P36", "stream", "%s() is called on %s, not on the stream of the step" % (m, show(a[0])), c)
        v = outcome(self.P, m, a[1:])
        sig = self.g(st, "sig")
        if self.g(st, "ended") is not None:
            return UNIT  # only the first result counts (P10)
        r = result(self.P)
        name = r["variants"][v.a[1]]["name"] if v.k == "a" and v.a[0] == r["name"] else None
        if sig is None:
            if self.g(st, "why") is None or name != "Failed":
                self.bad(st, "P36", "end:own", "the executor itself ends the step with %s" % show(v), c)
        elif (sig == "Cancel") != (name == "Cancelled") or sig == "Timeout" and m != "timeout":
            self.bad(st, "P36", "end:" + sig, "a step with the signal %s ends with %s" % (sig, m), c)
        else:
            self.did("P36", "%s:%s" % (sig, "before" if self.g(st, "run") is None else "during"))
        self.s(st, ended=m)
        return UNIT

    def on_exit(self, E, st, v):
        good = v.k == "a" and v.a[0] == "core::result::Result" and v.a[1] == 0
        sig, run, ended, why = (self.g(st, n) for n in ("sig", "run", "ended", "why"))
        if self.focus is not None:
            return
        if ended is None and sig is not None and why is None:
            self.bad(st, "P36", "unended:" + sig, "a step with the signal %s does not end as %s" % (sig, "cancelled" if sig == "Cancel" else "timed out"))
        if run is None and sig is None and good:
            self.bad(st, "P36", "not-run", "a step that was not signalled is not run")
        if not good and why is None and not self.err_path(E, st):
            self.bad(st, "P36", "error", "the executor fails with %s although nothing went wrong" % show(v))
        if run == "going" and sig is None:
            self.bad(st, "P36", "abandoned", "the executor returns while the command runs")
        if self.docker and sig is not None and run == "going" and not self.g(st, "killed"):
            self.bad(st, "P37", "not-killed", "the container of a step that was cancelled or timed out keeps running")
        self.did("P36", "exit")

    def err_path(self, E, st):
        """a path that is not valid text"""
        return any(l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] == "to_str" and f == ("=", 0) for l, f in st.facts.items())

    def on_panic(self, E, st, what, line):
        for p in ("P33", "P34", "P36"):
            self.bad(st, p, "panic", "running a step can panic: %s" % what)


def mkparent(v):
    """the directory of a path"""
    v = pathof(v)
    if v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "join":
        return v.a[0].a[1][0]
    return v


def layoutname(t, ids):
    """the name contains the workflow, the job and the step"""
    return [x for x in t if type(x) is V] == [pathof(i) for i in ids] and all(type(x) is V or re.fullmatch(r"[A-Za-z0-9_.-]+", x) for x in t) and \
        all(type(t[i]) is str or type(t[i + 1]) is str for i in range(len(t) - 1))


def has_old_of(v, l):
    """every mention of l in v speaks of an earlier element"""
    if v.k == "old":
        return True
    if v is l:
        return False
    return all(has_old_of(x, l) for x in flatv(v.a))


def flatv(t):
    for x in t:
        if type(x) is V:
            yield x
        elif type(x) in (tuple, frozenset):
            yield from flatv(x)


def execute(P, R, props, focus=None, which=None):
    """run the rule on every executor"""
    r = None
    es = executors(P)
    if len(es) < 2:
        R.violation("executors", "the runner has %d executors" % len(es))
    for adt, b in es:
        if which is not None and which not in adt:
            continue
        r = Exec(P, props, adt, focus)
        R.run(P, r, b, args=[Y(me), Y(r.ctx), Y(r.sender), Y(r.ev)], is_async=True, auto=r.start())
    return r


# ------------------------------------------------------------------------------------------------ AstroRunner
DRIVER = CR + "::plugin::PluginDriver::"
EXECUTE = CR + "::executors::Executor::execute"


class Run(wf.AutoRule):
    """Runner::run of the AstroRunner, with the task it starts"""
    fields = ("futs", "pair", "ctx", "task", "exec", "ended", "after", "event", "polled")
    init = ((), None, None, False, None, None, 0, None, frozenset())

    def __init__(self, P, props):
        super().__init__(props)
        self.P = P
        self.ctx0 = mk("arg", "context")
        self.C = q.adt(P, "Context", "astro_run")
        self.cad = [a for n, a in P.adts.items() if n.startswith("astro_run::") and n.endswith("::Command") and any(f[0] == "run" for f in a["variants"][0]["fields"])][0]
        ar = q.adt(P, "AstroRunner", CR)
        self.f = {}
        fs = ar["variants"][0]["fields"]
        self.wd = [fld(me, i, f[0]) for i, f in enumerate(fs) if "PathBuf" in f[1]]
        self.drv = [fld(me, i, f[0]) for i, f in enumerate(fs) if "PluginDriver" in f[1]]

    fut = Process.fut
    new = Process.new

    def cf(self, ctx, *names):
        l = ctx
        for i, n in enumerate(names):
            l = wf.field_of(self.P, self.C if i == 0 else self.cad, l, n)
        return l

    def on_spawn(self, E, st, c, fut):
        self.s(st, task=True)
        return "inline"

    def on_call(self, E, st, c):
        n = c.name or ""
        if n == "astro_run::stream::stream":
            l = E.fresh(st, c)
            self.s(st, pair=l)
            return mk("t", (Y(fld(l, 0, "0")), Y(fld(l, 1, "1"))))
        if n.startswith(SENDER):
            return self.out(E, st, c, n[len(SENDER):], [E.deep(st, x) for x in c.args])
        if n.startswith(DRIVER):
            return self.plugins(E, st, c, n[len(DRIVER):])
        if n == EXECUTE or c.fn.get("t") and n.endswith("Executor>::execute"):
            return self.execute(E, st, c)
        return None

    def is_stop(self, c):
        return True

    def plugins(self, E, st, c, m):
        a = [E.deep(st, x) for x in c.args]
        if m not in ("on_before_run", "on_after_run"):
            return None
        if not (self.drv and (label(a[0]) is self.drv[0] or same_as(a[0], self.drv[0]))):
            self.bad(st, "P40", "driver", "the plugins of %s are asked" % show(a[0]), c)
        if m == "on_before_run":
            if self.g(st, "ctx") is not None:
                self.bad(st, "P40", "before:twice", "the plugins' on_before_run is called twice", c)
            if not same_as(a[1], self.ctx0):
                self.bad(st, "P40", "before:ctx", "the plugins' on_before_run gets %s" % show(a[1]), c)
            self.did("P40", "before")
            return self.new(E, st, c, "before")
        if self.g(st, "exec") not in ("ok", "err"):
            self.bad(st, "P40", "after:early", "the plugins' on_after_run is called before the step has ended", c)
        if self.g(st, "ctx") is None or not same_as(a[1], self.g(st, "ctx")):
            self.bad(st, "P40", "after:ctx", "the plugins' on_after_run gets %s, not the step that ran" % show(a[1]), c)
        self.s(st, after=min(self.g(st, "after") + 1, 2))
        return self.new(E, st, c, "after")

    def execute(self, E, st, c):
        a = [E.deep(st, x) for x in c.args]
        ctx = self.g(st, "ctx")
        if ctx is None:
            self.bad(st, "P40", "before:missing", "the step is executed before the plugins' on_before_run has answered", c)
            return self.new(E, st, c, "exec")
        if self.g(st, "exec") is not None:
            self.bad(st, "P36", "executed:twice", "the step is executed twice", c)
        if not self.g(st, "task"):
            self.bad(st, "P36", "blocking", "the step is executed before its stream is handed out, so nobody reads its logs or times it out meanwhile", c)
        if not same_as(a[1], ctx):
            self.bad(st, "P40", "ctx", "the executor gets %s, not the step the plugins produced" % show(a[1]), c)
        p = self.g(st, "pair")
        if p is None or a[2] is not Y(fld(p, 0, "0")):
            self.bad(st, "P36", "stream", "the executor reports to %s" % show(a[2]), c)
        ev = self.cf(ctx, "event")
        if not same_as(a[3], ev) and not (a[3] is NONE and E.fact(st, mk("discr", ev)) == 0) and not self.optsame(E, st, a[3], ev):
            self.bad(st, "P39", "event", "the executor gets the trigger event %s, not the step's" % show(a[3]), c)
        v = a[0]
        if v.k != "a" or not v.a[0].startswith(CR):
            self.bad(st, "P38", "executor", "the step is executed by %s" % show(v), c)
        else:
            self.choice(E, st, c, v, ctx)
        self.s(st, exec="going")
        self.did("P36", "executed")
        return self.new(E, st, c, "exec")

    def optsame(self, E, st, v, l):
        return v.k == "a" and v.a[1] == 1 and E.fact(st, mk("discr", l)) == 1 and same_as(v.a[2][0], fld(l, 0, "Some.0"))

    def choice(self, E, st, c, v, ctx):
        if not any(x is Y(self.wd[0]) for x in v.a[2]):
            self.bad(st, "P39", "executor:dir", "the executor works in %s, not in the runner's directory" % ", ".join(map(show, v.a[2])), c)
        con = self.cf(ctx, "command", "container")
        n = E.fact(st, mk("discr", con))
        name = Y(wf.field_of(self.P, q.adt(self.P, "ContainerOptions", "astro_run"), fld(con, 0, "Some.0"), "name"))
        import platform
        here = ("host/linux", "host/linux-" + platform.machine())
        iss, isnt = None, set()
        for l, f in st.facts.items():
            t = None
            if l.k == "pure" and l.a[0] == "eq" and name in [unwrap(x) for x in l.a[1]]:
                t = [x for x in l.a[1] if unwrap(x) is not name]
                t = t[0].a[0] if t and t[0].k == "s" else None
                if t is not None and f == ("=", 1):
                    iss = t
                elif t is not None and f == ("=", 0):
                    isnt.add(t)
            elif l is label(name):
                if f[0] == "=":
                    iss = f[1].a[0] if type(f[1]) is V else f[1]
                else:
                    isnt |= {x.a[0] if type(x) is V else x for x in f[1]}
        host = "Host" in v.a[0]
        if host and (n != 1 or iss not in here):
            self.bad(st, "P38", "host", "a step runs on the host although its container is %s" % ("not set" if n == 0 else repr(iss) if iss else "not known to be this host"), c)
        elif not host and n != 0 and (iss in here or iss is None and not set(here) <= isnt):
            self.bad(st, "P38", "docker", "a step whose container is %s runs in docker" % (repr(iss) if iss else "possibly this host"), c)
        else:
            self.did("P38", "host:" + iss if host else "docker:" + ("default" if n == 0 else "image"))

    def out(self, E, st, c, m, a):
        p = self.g(st, "pair")
        if m == "is_ended":
            x = self.g(st, "ended")
            if x is not None:
                return K(1 if x else 0)
            s1 = st.copy()
            self.s(s1, ended=True)
            self.s(st, ended=False)
            return E.fin(s1, c, K(1)) + E.fin(st, c, K(0))
        if m not in ("end", "succeeded", "cancelled", "failed", "timeout", "log", "error"):
            return None
        if p is None or a[0] is not Y(fld(p, 0, "0")):
            self.bad(st, "P36", "stream:other", "%s() is called on %s, not on the stream of the step" % (m, show(a[0])), c)
        if m in ("log", "error"):
            if m == "log":
                self.bad(st, "P32", "log:runner", "the runner adds a line to the step's output", c)
            return UNIT
        v = outcome(self.P, m, a[1:])
        r = result(self.P)
        name = r["variants"][v.a[1]]["name"] if v.k == "a" and v.a[0] == r["name"] else None
        if self.g(st, "exec") in (None, "going"):
            self.bad(st, "P36", "end:early", "the runner itself ends the step before the executor is done", c)
        elif self.g(st, "ended") is not True and (name != "Failed" or v.a[2][0] is K(0)):
            self.bad(st, "P36", "end:other", "a step whose executor did not end it ends with %s" % show(v), c)
        self.s(st, ended=True)
        self.did("P36", "ended-for-executor")
        return UNIT

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        ctx = self.g(st, "ctx")
        k = pathof(key)
        wid = None
        if ctx is not None:
            sid = q.adt(self.P, "StepId", "astro_run")
            wid = [Y(fld(l, 0, sid["variants"][0]["fields"][0][0])) for l in (self.cf(ctx, "command", "id"), self.cf(ctx, "id"))]
        v = E.deep(st, val)
        if wid is None or not (k in wid or k.k == "a" and pathof(k.a[2][0]) in wid):
            self.bad(st, "P39", "event:key", "the step's event is kept under %s, not under its workflow" % show(key), c)
        elif not same_as(v, fld(self.cf(ctx, "event"), 0, "Some.0")):
            self.bad(st, "P39", "event:value", "the event kept for the workflow is %s" % show(v), c)
        else:
            self.s(st, event=True)
            self.did("P39", "event-kept")
        if self.g(st, "exec") is not None:
            self.bad(st, "P39", "event:late", "the event is kept only after the step was executed", c)

    def on_await(self, E, st, l, c):
        k = self.fut(st, l)
        o = mk("out", l)
        if k == "before":
            self.s(st, ctx=o)
            return [(st, Y(o))]
        if k == "exec":
            s1 = st.copy()
            self.s(s1, exec="err")
            self.s(st, exec="ok")
            return [(s1, err(Y(fld(o, 0, "Err.0")))), (st, ok(UNIT))]
        if k == "after":
            self.s(st, after=self.g(st, "after") + 10)
            return [(st, UNIT)]
        return None

    def finish(self, E, st):
        if self.g(st, "exec") not in ("ok", "err"):
            self.bad(st, "P36", "not-executed", "the runner's task ends without having executed the step")
            return
        if self.g(st, "ended") is not True:
            self.bad(st, "P36", "unended", "the runner's task ends without having made sure that the step's stream is ended")
        if self.g(st, "after") != 11:
            self.bad(st, "P40", "after:missing", "the plugins' on_after_run is called (and awaited) %s after the step" % (
                "not exactly once" if self.g(st, "after") % 10 else "not at all"))
        self.did("P36", "task-done")
        self.did("P40", "after")

    def on_task_end(self, E, st, v):
        self.finish(E, st)

    def on_exit(self, E, st, v):
        p = self.g(st, "pair")
        if p is None or v is not ok(Y(fld(p, 1, "1"))):
            self.bad(st, "P36", "returned", "the runner returns %s instead of the step's stream" % show(v))
        if not self.g(st, "task"):
            self.bad(st, "P36", "no-task", "the runner returns without having started the step")
        ctx = self.g(st, "ctx")
        if ctx is not None and E.fact(st, mk("discr", self.cf(ctx, "event"))) != 0 and not self.g(st, "event"):
            self.bad(st, "P39", "event:lost", "the step's event is not kept for the end of the workflow, whose directory is not found then")
        self.did("P36", "returned")

    def on_panic(self, E, st, what, line):
        for p in ("P36", "P38", "P40"):
            self.bad(st, p, "panic", "the runner's run can panic: %s" % what)


def run_step(P, R, props):
    bs = q.impl_of(P, "Runner", "AstroRunner", "run")
    if not R.need(bs, "Runner::run of AstroRunner"):
        return None
    r = Run(P, props)
    R.run(P, r, bs[0], args=[Y(me), Y(r.ctx0)], is_async=True, auto=r.start())
    return r


class Cleanup(Summary):
    """on_workflow_completed: what it removes"""
    coarse = True

    def __init__(self, name):
        super().__init__(watch=self.tagof, name=name)

    def tagof(self, E, st, c):
        n = c.name or ""
        return n if n.startswith(FS) else None

    def on_await(self, E, st, l, c):
        for e in st.auto:
            if e[-1] is l:
                o = mk("out", l)
                return [(st.copy(), err(Y(fld(o, 0, "Err.0")))), (st, ok(UNIT))]
        return None

    def on_map_remove(self, E, st, c, root, path, mv, key):
        st.auto = st.auto + (("forget", (E.deep(st, key), E.deep(st, mv)), None),)

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        st.auto = st.auto + (("keep", (E.deep(st, key),), None),)

    def on_lookup(self, E, st, c, root, path, key, found):
        st.auto = st.auto + (("ask", (E.deep(st, key), K({True: 1, False: 0, None: 2}[found])), None),)
        return True


def cleanup(P, R):
    """when a workflow ends its directory is removed and its event forgotten"""
    bs = q.impl_of(P, "Runner", "AstroRunner", "on_workflow_completed")
    if not R.need(bs, "on_workflow_completed of AstroRunner"):
        return
    x = mk("arg", "result")
    r = Cleanup("on_workflow_completed")
    R.run(P, r, bs[0], args=[Y(me), Y(x)], is_async=True, auto=())
    for w, p in r.panics:
        R.violation("panic", "the end of a workflow can panic: %s" % w, path=p)
    wr = q.adt(P, "WorkflowRunResult", "astro_run")
    wid = wf.field_of(P, wr, x, "id")
    ar = q.adt(P, "AstroRunner", CR)
    wd = [Y(fld(me, i, f[0])) for i, f in enumerate(ar["variants"][0]["fields"]) if "PathBuf" in f[1]][0]
    te = q.adt(P, "TriggerEvent", "astro_run")
    oi = [[f[0] for f in te["variants"][0]["fields"]].index(n) for n in ("repo_owner", "repo_name")]
    for e in r.exits:
        if not (e.v.k == "a" and e.v.a[0] == "core::result::Result" and e.v.a[1] == 0):
            R.violation("fails", "the end of a workflow is reported as failed: %s" % show(e.v), path=e.path)
        isid = lambda k: pathof(k) is Y(wid) or pathof(k) is Y(fld(wid, 0, "0")) or k.k == "a" and len(k.a[2]) == 1 and pathof(k.a[2][0]) is Y(fld(wid, 0, "0"))
        asks = [c for c in e.ev if c[0] in ("ask", "forget", "keep")]
        if any(not isid(c[1][0]) for c in asks):
            R.violation("event:key", "at the end of a workflow the event of %s is looked up" % ", ".join(show(c[1][0]) for c in asks), path=e.path)
            continue
        if any(c[0] == "keep" for c in asks):
            R.violation("event:kept", "an event is added at the end of a workflow", path=e.path)
        known = None
        got = None
        for l, f in e.facts.items():
            if l.k == "discr" and l.a[0].k == "pure" and l.a[0].a[0] in ("get", "remove") and f[0] == "=":
                known = f[1]
                got = fld(l.a[0], 0, "Some.0")
        if not any(c[0] == "forget" for c in asks) and known != 0:
            R.violation("event:leak", "the event of a completed workflow is kept for ever", path=e.path)
        fs = [c for c in e.calls() if "::" in c[0]]
        rm = [c for c in fs if c[0].rsplit("::", 1)[1] in ("remove_dir_all", "remove_dir", "remove_file", "rename")]
        other = [c for c in fs if c not in rm and c[0].rsplit("::", 1)[1] not in ("metadata", "try_exists")]
        if other:
            R.violation("fs", "the end of a workflow calls %s" % ", ".join(c[0] for c in other), path=e.path)
        gone = any(l.k == "pure" and l.a[0] in ("exists", "is_dir") and f == ("=", 0) for l, f in e.facts.items())
        if not rm and not gone:
            R.violation("kept", "the directory of a completed workflow is not removed", path=e.path)
        for c in rm:
            cs = comps(c[1][0])
            repo = [Y(fld(got, i, te["variants"][0]["fields"][i][0])) for i in oi] if got is not None else []
            want = [wd] + (repo if known == 1 else [])
            good = len(rm) == 1 and known is not None and cs[:-1] == want and (isid(cs[-1]))
            R.ob("removed:" + ("repository" if known else "plain"))
            if not good:
                R.violation("removed", "at the end of a workflow %s is removed, which is not its directory" % show(c[1][0]), path=e.path)
        R.ob("workflow-end")


# ------------------------------------------------------------------------------------------------ plugins, builders, values
def plugin_hooks(P, R):
    from .p12 import Fan

    class RFan(Fan):
        trait = CR + "::plugin::Plugin"

    ad = q.adt(P, "PluginDriver", CR)
    if not R.need(ad, "the runner's PluginDriver"):
        return
    vec = [f[0] for f in ad["variants"][0]["fields"] if "dyn" in f[1] and "Plugin" in f[1]]
    if not R.need(vec, "the plugins of the runner's plugin driver"):
        return
    v = q.field(me, ad, vec[0])
    hooks = [m for m in P.traits.get(RFan.trait, {}) if m.startswith("on_")]
    if len(hooks) < 2:
        R.violation("hooks", "the runner's Plugin trait has %d hooks" % len(hooks))
    for h in hooks:
        bs = q.method(P, CR, "PluginDriver", h)
        if not R.need(bs, "PluginDriver::" + h):
            continue
        arg = Y(mk("arg", "ctx"))
        rule = RFan(h, v, {"on_before_run": "chain"}.get(h, "all"))
        R.run(P, rule, bs[0], args=[Y(me), arg], is_async=True, auto=(None, 0, None, False, arg, None))
        R.floor(rule, "plugin-called:" + h, 1)
        R.floor(rule, "all-plugins:" + h, 1)


def builder(P, R):
    """what AstroRunner::builder()…build() makes consists of what it was given"""
    from .common import calls_one, chain, part
    B = "AstroRunnerBuilder"
    A = lambda n: Y(mk("arg", n))
    w, p1, p2 = A("directory"), A("plugin 1"), A("plugin 2")
    W, P1, P2 = (B, "working_directory", [w]), (B, "plugin", [p1]), (B, "plugin", [p2])
    for what, steps, plugins, wd in (("usual", [W, P1, P2], [p1, p2], True), ("plugins first", [P2, P1, W], [p2, p1], True), ("no plugin", [W], [], True),
                                     ("one plugin", [P1, W], [p1], True), ("no directory", [P1], [p1], False), ("directory set again", [(B, "working_directory", [A("old")]), P1, W, P2], [p1, p2], True)):
        b = chain(P, R, what, None, [("AstroRunner", "builder", [])] + steps, CR)
        if b is None:
            continue
        r = calls_one(P, R, B, "build", [b], CR)
        good = 0
        for e in r.exits if r else ():
            if e.v.k == "a" and e.v.a[0] == "core::result::Result" and e.v.a[1] == 1:
                if wd:
                    R.violation("build:fails", "a runner whose directory is set cannot be built: %s" % show(e.v), path=e.path)
                continue
            good += 1
            v = e.v.a[2][0]
            ws = part(P, v, "PathBuf")
            if wd and ws != [w]:
                R.violation("build:directory", "the runner works in %s instead of the directory given" % ", ".join(map(show, ws)), path=e.path)
            elif not wd and not (len(ws) == 1 and any(l.k == "call" and "home_dir" in str(l.a[0]) or l.k == "pure" and "home_dir" in str(l.a[0]) for l in q.labels(ws[0]))):
                R.violation("build:home", "without a directory the runner works in %s" % ", ".join(map(show, ws)), path=e.path)
            pv = [x for d in part(P, v, "PluginDriver") for x in part(P, d, "Plugin")]
            if pv != [seq(tuple(("one", x) for x in plugins))]:
                R.violation("build:plugins", "the runner's plugins are %s, expected %s" % ([show(x) for x in pv], [show(x) for x in plugins]), path=e.path)
            R.ob("built")
        if not good:
            R.violation("build:none", "build() never succeeds (%s)" % what)


def env_text(P, R):
    """the text of an environment variable's value is that of the value it holds"""
    m = P.impls.get(("core::fmt::Display", ENV))
    b = P.bodies.get(m["fmt"]) if m else None
    if not R.need(b, "Display of EnvironmentVariable"):
        return
    v = mk("arg", "value")
    ad = P.adts[ENV]
    for i, x in enumerate(ad["variants"]):
        r = Text()
        # the value is of this variant
        R.run(P, r, b, args=[mk("a", ENV, i, (Y(mk("arg", "inner")),)), Y(mk("arg", "f"))], auto=())
        for e in r.exits:
            got = [t for tag, a, _ in e.ev if tag == "write" for t in a]
            known = e.facts.get(mk("arg", "inner"))
            if x["name"] == "Boolean" and known in (("=", 0), ("=", 1)) and got == [S(("false", "true")[known[1]])]:
                R.ob("text:Boolean")
                continue
            if [pathof(t) for t in got] != [Y(mk("arg", "inner"))]:
                R.violation("text:" + x["name"], "the text of a %s variable is %s" % (x["name"], " ".join(map(show, got)) or "empty"), path=e.path)
            R.ob("text:" + x["name"])


class Text(Summary):
    def on_call(self, E, st, c):
        n = c.name or ""
        if n == "core::fmt::Formatter::write_str":
            st.auto = st.auto + (("write", (E.deep(st, c.args[1]),), None),)
            return ok(UNIT)
        if n in ("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt"):
            st.auto = st.auto + (("write", (E.deep(st, c.args[1]),), None),)
            return ok(UNIT)
        if n == "core::fmt::Display::fmt":
            st.auto = st.auto + (("write", (E.deep(st, c.args[0]),), None),)
            return ok(UNIT)
        return None
