"""Typestate of a state cell shared under a mutex: what each critical section reads and writes."""
from .rule import Rule
from .vals import *
from . import q


class CellRule(Rule):
    """auto = (guards held, events)

    events: ('set', lock, value, prev-known-empty) | ('push', lock, value) | ('wake', value) | ('sec', lock, content at unlock)
            | ('upd', mutex label, value)"""

    def __init__(self, adt, payload, waker):
        super().__init__()
        self.adt = adt
        self.names = [f[0] for f in adt["variants"][0]["fields"]]
        self.payload = payload
        self.waker = waker

    def ev(self, st, *e):
        held, evs = st.auto or ((), ())
        st.auto = (held, (evs + (e,))[-12:])

    def on_lock(self, E, st, g, c):
        held, evs = st.auto or ((), ())
        st.auto = (held + (g,), evs)

    def on_unlock(self, E, st, g):
        self.ev(st, "sec", g, E.read(st, g.a[0], g.a[1]))
        held, evs = st.auto
        st.auto = (tuple(h for h in held if h is not g), evs)

    def inside(self, st, root, path):
        """(guard, relative path) when the location is inside a mutex locked on this path"""
        held, _ = st.auto or ((), ())
        best = None
        for g in held:
            if root == g.a[0] and path[: len(g.a[1])] == g.a[1] and (best is None or len(g.a[1]) > len(best.a[1])):
                best = g
        return (best, path[len(best.a[1]):]) if best is not None else (None, None)

    def on_write(self, E, st, root, path, v, line):
        cur, rel = self.inside(st, root, path)
        if rel is None:
            return
        if not rel:
            if v.k == "a" and v.a[0] == self.adt["name"]:
                for i, n in enumerate(self.names):
                    self.field_write(E, st, cur, n, root, path + (("f", i, n),), v.a[2][i])
            else:
                self.ev(st, "upd", cur, v)
            return
        self.field_write(E, st, cur, rel[0][2] if len(rel) == 1 and rel[0][0] == "f" else None, root, path, v)

    def field_write(self, E, st, cur, n, root, path, v):
        if n == self.payload:
            if v is NONE:
                if E.discr(st, E.full(st, E.read(st, root, path))) is not K(0):
                    self.ev(st, "clear", cur)
                return
            prev = E.full(st, E.read(st, root, path))
            known = E.discr(st, prev) is K(0)
            self.ev(st, "set", cur, E.deep(st, v), known)
        elif n is not None and n != self.waker:
            self.ev(st, "fld", cur, n, v)

    def on_push(self, E, st, root, path, old, x, c):
        g, rel = self.inside(st, root, path)
        if rel is not None:
            self.ev(st, "push", g, rel[0][2] if rel else "", old, E.deep(st, x))

    def on_call(self, E, st, c):
        if c.name in ("core::task::wake::Waker::wake", "core::task::wake::Waker::wake_by_ref"):
            self.ev(st, "wake", E.full(st, c.args[0]))
        if c.name == "core::task::wake::Waker::will_wake":
            return Y(mk("pure", "will_wake", (E.full(st, c.args[0]), E.full(st, c.args[1]))))
        return None

    def on_fact(self, E, st, l, n):
        if l.k == "pure" and l.a[0] == "will_wake" and n == 1:
            self.ev(st, "same", *l.a[1])
        return True

    def registered(self, E, st, g, wfin):
        """the waker left under the lock wakes the task being polled"""
        if wfin.k == "a" and wfin.a[1] == 1 and q.has_call(wfin, "Context::waker"):
            return True
        old = Y(fld(self.lockfield(g, self.waker), 0, "Some.0"))
        if wfin is not Y(self.lockfield(g, self.waker)) and not (wfin.k == "a" and wfin.a[1] == 1 and wfin.a[2][0] is old):
            return False
        return any(old in e[1:] and any(q.has_call(x, "Context::waker") for x in e[1:]) for e in self.events(st, "same"))

    # ---- queries
    def lockfield(self, g, name):
        i = self.names.index(name)
        if g.a[2] is None:
            return None
        return fld(g.a[2], i, name)

    def events(self, st, kind):
        return [e for e in (st.auto or (None, ()))[1] if e[0] == kind]

    def woken(self, E, st, g):
        """the waker that was stored when g was taken has been woken, or there was none"""
        w = self.lockfield(g, self.waker)
        if w is None:
            return True
        d = E.fact(st, mk("discr", w))
        if d == 0:
            return True
        pl = Y(fld(w, 0, "Some.0"))
        return any(e[1] is pl for e in self.events(st, "wake"))
