"""P48: the logger prints exactly the records of its level."""
import re

from ar import q
from ar.summ import Summary
from ar.vals import *

RULE = ("Path-sensitive abstract interpretation over MIR of the Log implementation of astro_run_logger for every pair of logger level and record level (25 pairs), and of both init functions with the environment variable absent, unreadable as a level or any level: "
        "a record is printed, with its message, and its level's name, exactly if its level is at most the logger's; the level installed is the one asked for - RUST_LOG's, else info - and the same that the log facade filters by; a second initialization installs nothing.")
ASSUME = ["no other logger was installed before", "std::sync::OnceLock runs its initializer once", "the log facade passes every record that its maximum level admits"]
LV = ["Error", "Warn", "Info", "Debug", "Trace"]
LEVEL = "log::Level"
CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def level(i):
    return mk("a", LEVEL, i, ())


class Log(Summary):
    def __init__(self, rec=None, **kw):
        super().__init__(**kw)
        self.rec = rec

    def is_stop(self, c):
        return False

    def on_call(self, E, st, c):
        n = c.name or ""
        if self.rec is not None and n in ("log::Record::level", "log::Metadata::level", "log::MetadataBuilder::level"):
            return level(self.rec)
        if n.startswith("core::cmp::") and len(c.args) == 2:
            a, b = (E.full(st, x) for x in c.args)
            if all(x.k == "a" and x.a[0] == LEVEL for x in (a, b)):
                a, b, m = a.a[1], b.a[1], n.rsplit("::", 1)[1]
                if m in CMP:
                    return K(1 if CMP[m](a, b) else 0)
                if m in ("max", "min"):
                    return level(max(a, b) if m == "max" else min(a, b))
                o = mk("a", "core::cmp::Ordering", 0 if a < b else 1 if a == b else 2, ())
                return some(o) if m == "partial_cmp" else o
        if n in ("std::io::stdio::_print", "std::io::stdio::_eprint"):
            st.auto = st.auto + (("print", E.deep(st, c.args[0]), n.endswith("_print")),)
            return UNIT
        if n.startswith("colored::Colorize::"):
            return E.full(st, c.args[0])
        if n == "log::Record::args":
            return Y(mk("arg", "message"))
        if n == "log::set_boxed_logger" or n == "log::set_logger":
            st.auto = st.auto + (("logger", E.deep(st, E.full(st, c.args[0])), None),)
            return ok(UNIT)
        if n == "log::set_max_level":
            st.auto = st.auto + (("max", E.deep(st, c.args[0]), None),)
            return UNIT
        if n == "log::Level::to_level_filter":
            return Y(mk("pure", "filter", (E.deep(st, E.full(st, c.args[0])),)))
        if n.endswith(("FromStr::from_str", "str::parse")) and LEVEL in c.destty["s"]:
            v = E.full(st, c.args[0])
            if v.k == "s":
                i = [x.lower() for x in LV].index(v.a[0].lower()) if v.a[0].lower() in [x.lower() for x in LV] else None
                return ok(level(i)) if i is not None else err(Y(E.fresh(st, c)))
            s2 = st.copy()
            l = mk("pure", "level of", (E.deep(st, v),))
            st.auto = st.auto + (("read", 1, None),)
            s2.auto = s2.auto + (("read", 0, None),)
            return E.fin(st, c, ok(Y(l))) + E.fin(s2, c, err(Y(E.fresh(s2, c))))
        if n == "std::env::var":
            s2 = st.copy()
            st.auto = st.auto + (("env", E.deep(st, E.full(st, c.args[0])), None),)
            l = mk("arg", "RUST_LOG")
            s2.auto = s2.auto + (("env", E.deep(s2, E.full(s2, c.args[0])), None),)
            return E.fin(st, c, ok(Y(l))) + E.fin(s2, c, err(Y(E.fresh(s2, c))))
        return None


def texts(v):
    r = []

    def go(v):
        if type(v) is V:
            if v.k == "s":
                r.append(v.a[0])
            for x in v.a:
                go(x)
        elif type(v) is tuple:
            for x in v:
                go(x)
    go(v)
    return r


def run(P, R):
    impls = [(a, m) for (t, a), m in P.impls.items() if t == "log::Log" and a.startswith("astro_run_logger::")]
    if not R.need(impls, "Log of the logger"):
        return
    ty, m = impls[0]
    news = q.method(P, "astro_run_logger", ty.rsplit("::", 1)[1], "new")
    if not R.need(news, "Logger::new"):
        return
    for i in range(5):
        r = Log(name="new")
        R.run(P, r, news[0], args=[level(i)], auto=())
        if len(r.exits) != 1:
            R.violation("new", "a logger of level %s is made in %d ways" % (LV[i], len(r.exits)))
            return
        lg = r.exits[0].v
        for j in range(5):
            for meth, args in (("enabled", [lg, Y(mk("arg", "metadata"))]), ("log", [lg, Y(mk("arg", "record"))])):
                b = P.bodies.get(m.get(meth))
                if not R.need(b, meth + " of the logger"):
                    return
                r = Log(rec=j, name=meth)
                R.run(P, r, b, args=args, auto=())
                where = "%s:%s" % (b.file, b.line)
                for w, p in r.panics:
                    R.violation("panic:" + meth, "%s can panic: %s" % (meth, w), where, p)
                if not r.exits:
                    R.violation("never:" + meth, "%s of a %s record never returns" % (meth, LV[j]), where)
                for x in r.exits:
                    R.ob(meth)
                    if meth == "enabled":
                        if x.v is not K(1 if j <= i else 0):
                            R.violation("enabled", "a logger of level %s says %s for a %s record" % (LV[i], show(x.v), LV[j]), where, x.path)
                        continue
                    pr = [e for e in x.ev if e[0] == "print"]
                    if len(pr) != (1 if j <= i else 0):
                        R.violation("printed:%s" % ("too-much" if pr else "lost"), "a logger of level %s prints a %s record %d times" % (LV[i], LV[j], len(pr)), where, x.path)
                        continue
                    if pr:
                        t = show(pr[0][1])
                        names = [n for x in texts(pr[0][1]) for n in re.findall("[A-Za-z]+", x) if n.upper() in [l.upper() for l in LV]]
                        if [n.upper() for n in names] != [LV[j].upper()]:
                            R.violation("name", "a %s record is printed as %s" % (LV[j], names or t), where, x.path)
                        if mk("arg", "message") not in q.labels(pr[0][1]):
                            R.violation("message", "a record is printed without its message, as %s" % t, where, x.path)
    for fn, given in (("init_logger", None), ("init_logger_with_level", Y(mk("arg", "level")))):
        bs = P.find(fn, "astro_run_logger")
        if not R.need(bs, fn):
            return
        b = bs[0]
        where = "%s:%s" % (b.file, b.line)
        r = Log(name=fn)
        R.run(P, r, b, args=[given] if given is not None else [], auto=())
        n = 0
        for w, p in r.panics:
            R.violation("panic:" + fn, "%s can panic: %s" % (fn, w), where, p)
        for x in r.exits:
            R.ob("init")
            lg = [e[1] for e in x.ev if e[0] == "logger"]
            mx = [e[1] for e in x.ev if e[0] == "max"]
            envs = [e[1] for e in x.ev if e[0] == "env"]
            if not lg and not mx:
                continue
            n += 1
            if len(lg) != 1 or len(mx) != 1:
                R.violation("twice:" + fn, "%s installs %d loggers and %d maximum levels" % (fn, len(lg), len(mx)), where, x.path)
                continue
            if lg[0].k != "a" or not lg[0].a[2]:
                R.violation("what:" + fn, "%s installs %s" % (fn, show(lg[0])), where, x.path)
                continue
            lv = lg[0].a[2][0]
            if mx[0] is not Y(mk("pure", "filter", (lv,))):
                R.violation("filter:" + fn, "%s installs a logger of level %s, but lets %s through" % (fn, show(lv), show(mx[0])), where, x.path)
            env = Y(mk("pure", "level of", (Y(mk("arg", "RUST_LOG")),)))
            if given is not None and lv is not given:
                R.violation("level:" + fn, "%s installs the level %s" % (fn, show(lv)), where, x.path)
            elif given is None:
                if S("RUST_LOG") not in envs or any(e is not S("RUST_LOG") for e in envs):
                    R.violation("source:" + fn, "the level comes from %s" % [show(e) for e in envs], where, x.path)
                good = [e for e in x.ev if e[0] == "read"]
                want = env if good and good[-1][1] == 1 else level(2)
                if lv is not want:
                    R.violation("level:" + fn, "%s installs the level %s%s" % (fn, show(lv), " where RUST_LOG names one" if want is env else " where RUST_LOG names none"), where, x.path)
        if n < 1:
            R.violation("never:" + fn, "%s never installs a logger" % fn, where)
    R.floor(None, "log", 25)
    R.floor(None, "init", 4)
