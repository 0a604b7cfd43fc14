"""Value summaries: every exit of a function, with the facts and events of its path."""
from .rule import Rule
from .vals import *


class Summary(Rule):
    """auto = (events,). Events of watched calls: (tag, deep args, label)."""

    def __init__(self, watch=None, know=None, fork=None, name=""):
        super().__init__()
        self.watch = watch
        self.know = know
        self.fork = fork
        self.exits = []
        self.name = name
        self.panics = []

    def start(self):
        return ()

    def on_call(self, E, st, c):
        if self.watch is not None:
            t = self.watch(E, st, c)
            if type(t) is V:
                return t
            if t is not None:
                self.tag = t
                return "opaque"
        return None

    def is_stop(self, c):
        return self.watch is not None and self.watch(self.E, None, c) is not None

    def on_opaque(self, E, st, c, l):
        t = self.watch(E, st, c) if self.watch is not None else None
        if t is not None and type(t) is not V:
            st.auto = (st.auto + ((t, tuple(E.deep(st, a) for a in c.args), l),))[-60:]

    def on_indirect(self, E, st, c, v, args):
        l = E.fresh(st, c, "call", "indirect")
        st.auto = (st.auto + (("call", (E.deep(st, v),) + tuple(E.deep(st, a) for a in args), l),))[-60:]
        return Y(l)

    def on_await(self, E, st, l, c):
        for e in st.auto:
            if e[-1] is l and e[0] != "await":
                st.auto = (st.auto + (("await", (), l),))[-60:]
                if self.fork is not None:
                    return self.fork(E, st, e, l, c)
        return None

    def on_fact(self, E, st, l, n):
        if self.know is not None and self.know(l):
            st.auto = (tuple(e for e in st.auto if not (e[0] == "know" and e[2] is l)) + (("know", n, l),))[-60:]
        return True

    def on_panic(self, E, st, what, line):
        self.panics.append((what, E.path_text(st, 20)))

    def on_exit(self, E, st, v):
        d = E.deep(st, v)
        x = Exit(d, st.auto, dict(st.facts), E.path_text(st, 30))
        x.st = st
        self.exits.append(x)


class Exit:
    def __init__(self, v, ev, facts, path):
        self.v = v
        self.ev = ev
        self.facts = facts
        self.path = path

    def calls(self, tag=None):
        return [e for e in self.ev if e[0] not in ("know", "await") and (tag is None or e[0] == tag)]

    def awaited(self, l):
        return any(e[0] == "await" and e[2] is l for e in self.ev)

    def known(self, l):
        for e in reversed(self.ev):
            if e[0] == "know" and e[2] is l:
                return e[1]
        f = self.facts.get(l)
        return f[1] if f is not None and f[0] == "=" else None


class MapSummary(Summary):
    """a Summary that also records what happens to maps: ("insert" | "remove" | "lookup", (place, key[, value | found]), None)"""

    def note(self, E, st, tag, root, path, *vs):
        st.auto = (st.auto + ((tag, (mk("r", root, path),) + tuple(E.deep(st, v) for v in vs), None),))[-60:]

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        self.note(E, st, "insert", root, path, key, val)

    def on_map_remove(self, E, st, c, root, path, mv, key):
        self.note(E, st, "remove", root, path, key)

    def on_lookup(self, E, st, c, root, path, key, found):
        self.note(E, st, "lookup", root, path, key, K({True: 1, False: 0, None: 2}[found]))
        return True
