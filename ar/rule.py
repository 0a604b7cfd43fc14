"""Base class of the path-sensitive rules: hooks the engine calls."""
from .vals import *


class Rule:
    pending_everywhere = False
    inline = ()
    flat = ()  # types whose text is one opaque value
    coarse = False
    logging = False  # whether log macros are enabled, so that what they format is analysed
    forget = None  # forget(label): facts about it may be dropped (loses precision, never soundness)

    def __init__(self):
        self.E = None
        self.viol = {}
        self.obl = {}
        self.notes = {}

    # --- verdicts -----------------------------------------------------
    def flag(self, st, key, msg, c=None):
        """a violation, keyed by construct (no line numbers)"""
        if key in self.viol:
            return
        where = None
        if c is not None:
            b, line = c.body, c.line
            if b.crate == "arfx_models":
                f = self.E.where(st)
                b, line = f.body, None
            where = "%s:%s" % (b.file, line if line else b.line)
        elif st is not None and st.fr:
            f = self.E.where(st)
            where = "%s:%s" % (f.body.file, f.body.line)
        self.viol[key] = {"msg": msg, "where": where, "path": self.E.path_text(st, 40) if st is not None else []}

    def ob(self, name, n=1):
        self.obl[name] = self.obl.get(name, 0) + n

    # --- hooks --------------------------------------------------------
    def on_fact(self, E, st, l, n):
        return True

    def on_write(self, E, st, root, path, v, line):
        pass

    def on_push(self, E, st, root, path, old, x, c):
        pass

    def on_insert(self, E, st, root, path, old, x, c):
        """like on_push, for insertion at an index; both may return what to put instead: a value or a segment"""
        pass

    def on_count(self, E, st, c, l):
        """l is the index of the element an enumerated iteration just produced"""
        pass

    def on_map_insert(self, E, st, c, root, path, mv, key, val):
        pass

    def on_map_remove(self, E, st, c, root, path, mv, key):
        pass

    def on_index(self, E, st, c, v, i):
        pass

    def on_call(self, E, st, c):
        return None

    def on_enter(self, E, st, b, c):
        pass

    def on_indirect(self, E, st, c, v, args):
        return None

    def on_opaque(self, E, st, c, l):
        pass

    def on_ret(self, E, st, f, v):
        return None

    def on_exit(self, E, st, v):
        pass

    def on_panic(self, E, st, what, line):
        pass

    def on_lock(self, E, st, g, c):
        pass

    def on_unlock(self, E, st, g):
        pass

    def on_drop(self, E, st, v):
        pass

    def on_await(self, E, st, l, c):
        return None

    def on_pending(self, E, st, l, c):
        pass

    def on_yield(self, E, st):
        """the root task waits"""
        return None

    def on_lookup(self, E, st, c, root, path, key, found):
        """a map at (root, path) was asked for key: found is True | False | None (unknown); return False to drop the path"""
        return True

    def on_arith(self, E, st, op, a, b):
        """value of a + b / a - b where the rule knows better"""
        return None

    def on_spawn(self, E, st, c, fut):
        return "skip"

    def on_task_end(self, E, st, v):
        pass

    def on_iter(self, E, st, c, L, e):
        return True

    def on_regen(self, E, st, l):
        """element l of an iteration is about to become one of the earlier ones; may return the label it gets"""
        return None

    def on_fmt(self, E, st, piece):
        pass

    def witness(self, E, st, L):
        return False

    def is_stop(self, c):
        return False
