"""Path-sensitive, interprocedural dataflow over the MIR facts.

The abstract state is (call stack with abstract locals, abstract memory, facts about
opaque labels, rule automaton state).  States are finite by construction: a label that is
generated again at the same site renames its predecessor to `old`, repeated sequence
elements collapse, arithmetic widens.  The worklist runs to a fixpoint; running out of
budget is an error of the check, never a pass.
"""
import sys

from .vals import *
from .vals import _FRESH, mk
from . import natives as N
from .prog import counters

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("body", "bb", "loc", "dest", "ret", "chain", "kind", "post")

    def copy(self):
        f = Frame()
        f.body = self.body
        f.bb = self.bb
        f.loc = dict(self.loc)
        f.dest = self.dest
        f.ret = self.ret
        f.chain = self.chain
        f.kind = self.kind
        f.post = self.post
        return f

    def key(self):
        return (id(self.body), self.bb, self.chain, frozenset(self.loc.items()), self.dest, self.ret, self.kind, self.post)


class St:
    __slots__ = ("fr", "mem", "facts", "auto", "gen", "tr")

    def copy(self):
        s = St()
        s.fr = [f.copy() for f in self.fr]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.auto = self.auto
        s.gen = set(self.gen)
        s.tr = self.tr
        return s


def rn_any(x, src, dst):
    if type(x) is V:
        return rename(x, src, dst)
    if type(x) is tuple:
        return tuple(rn_any(y, src, dst) for y in x)
    if type(x) is frozenset:
        return frozenset(rn_any(y, src, dst) for y in x)
    return x


def frs_of(x, acc):
    if type(x) is V:
        acc |= x.fr
    elif type(x) in (tuple, frozenset):
        for y in x:
            frs_of(y, acc)


class Call:
    """a call site being executed"""
    __slots__ = ("name", "id", "fn", "args", "dest", "target", "line", "body", "chain", "destty", "argtys", "self_adt",
                 "gargs", "site")


def position(st, a, b):
    """is a known to be one of the numbers 0..b"""
    if a.k != "y" or b.k != "y":
        return False
    l = a.a[0]
    w = st.mem.get(("X", l))
    if w is not None:
        return b.a[0].k == "pure" and b.a[0].a[0] == "len" and b.a[0].a[1][0] is w.a[0][0]
    while l.k == "old":
        l = l.a[0]
    if l.k not in ("el", "wit"):
        return False
    L = l.a[0]
    return L.k == "pure" and L.a[0] == "range" and L.a[1][1] is b


class Engine:
    def __init__(self, prog, rule, budget=400000, select=True):
        self.P = prog
        self.rule = rule
        rule.E = self
        set_coarse(rule.coarse)
        self.budget = budget
        self.steps = 0
        self.nstates = 0
        self.seen = set()
        self.work = []
        self.reports = {}
        self.unmod = {}
        self.funcs = set()
        self.calls = 0
        self.chains = {}
        self.promc = {}
        self.nvar = {}
        self.paths = 0
        self.opaque_depth = 0

    # ------------------------------------------------------------ setup
    def chain(self, parent, site):
        return self.chains.setdefault((parent, site), len(self.chains))

    def start(self, body, args, auto=None, facts=None):
        st = St()
        st.fr = []
        st.mem = {}
        st.facts = dict(facts or {})
        st.auto = auto
        st.gen = set()
        st.tr = None
        self.push(st, body, args, None, -1, "root", None, site=("root", body.id))
        self.work.append(st)
        return st

    def start_async(self, body, args, auto=None, facts=None):
        """entry is `async fn` (or async_trait method): call it, then drive the future"""
        st = St()
        st.fr = []
        st.mem = {}
        st.facts = dict(facts or {})
        st.auto = auto
        st.gen = set()
        st.tr = None
        self.push(st, body, args, None, -1, "root", ("drive",), site=("root", body.id))
        self.work.append(st)
        return st

    def push(self, st, body, args, dest, ret, kind="call", post=None, site=None):
        parent = st.fr[-1].chain if st.fr else -1
        f = Frame()
        f.body = body
        f.bb = 0
        f.loc = {}
        f.dest = dest
        f.ret = ret
        f.kind = kind
        f.post = post
        f.chain = self.chain(parent, site)
        for i, a in enumerate(args):
            f.loc[i + 1] = a
        st.fr.append(f)
        self.funcs.add(body.id)
        return f

    def run(self):
        while self.work:
            st = self.work.pop()
            self.drive(st)
        return self

    def drive(self, st):
        while True:
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("step budget %d exhausted in %s" % (self.budget, st.fr[-1].body.n if st.fr else "?"))
            f = st.fr[-1]
            if f.body.npred[f.bb] >= 2 or f.bb == 0:
                k = self.key(st)
                if k in self.seen:
                    return
                self.seen.add(k)
            nxt = self.block(st)
            if not nxt:
                self.paths += 1
                return
            if len(nxt) > 1:
                self.work.extend(nxt[1:])
            st = nxt[0]

    def key(self, st):
        self.gc(st)
        return (
            tuple(f.key() for f in st.fr),
            frozenset(st.mem.items()),
            frozenset(st.facts.items()),
            st.auto,
        )

    def gc(self, st):
        acc = set()
        for f in st.fr:
            for v in f.loc.values():
                acc |= v.fr
            frs_of(f.post, acc)
            frs_of(f.dest, acc)
        for (kk, vv) in st.mem.items():
            if type(kk[1]) is not V or kk[1].fr <= acc:
                acc |= vv.fr
        frs_of(st.auto, acc)
        acc2 = set()
        frs_of(st.auto, acc2)
        forget = self.rule.forget
        for l in [l for l in st.facts if not l.fr <= acc or forget is not None and forget(l)]:
            del st.facts[l]
        for kk in [kk for kk in st.mem if type(kk[1]) is V and not kk[1].fr <= acc]:
            del st.mem[kk]

    # ------------------------------------------------------------ facts
    def fact(self, st, l):
        f = st.facts.get(l)
        if f is not None and f[0] == "=":
            return f[1]
        if f is not None and f[0] == "!" and l in self.nvar:
            rest = [i for i in range(self.nvar[l]) if i not in f[1]]
            if len(rest) == 1:
                return rest[0]
        return None

    def excluded(self, st, l, n):
        f = st.facts.get(l)
        return f is not None and f[0] == "!" and n in f[1]

    def assume(self, st, l, n):
        """l == n; returns False when infeasible"""
        f = st.facts.get(l)
        if f is not None:
            if f[0] == "=":
                return f[1] == n
            if n in f[1]:
                return False
        if l.k == "pure" and l.a[0] == "len" and not self.sized(st, l, n == 0):
            return False
        st.facts[l] = ("=", n)
        if not self.rule.on_fact(self, st, l, n):
            return False
        return True

    def sized(self, st, l, none):
        """is having (no) elements compatible with what iterating over the list showed?"""
        f = st.facts.get(mk("pure", "empty", l.a[1]))
        return f is None or f[0] != "=" or f[1] == (1 if none else 0)

    def assume_not(self, st, l, ns):
        f = st.facts.get(l)
        if f is not None and f[0] == "=":
            return f[1] not in ns
        if l.k == "pure" and l.a[0] == "len" and 0 in ns and not self.sized(st, l, False):
            return False
        ex = frozenset(ns) | (f[1] if f is not None else frozenset())
        if l in self.nvar:
            rest = [i for i in range(self.nvar[l]) if i not in ex]
            if not rest:
                return False
            if len(rest) == 1:
                return self.assume(st, l, rest[0]) if f is None or f[0] != "!" else self._set(st, l, rest[0])
        st.facts[l] = ("!", ex)
        return True

    def _set(self, st, l, n):
        st.facts[l] = ("=", n)
        return self.rule.on_fact(self, st, l, n)

    def simp(self, st, v):
        """apply facts to a boolean/int value"""
        if v.k == "y":
            l = v.a[0]
            n = self.fact(st, l)
            if n is not None:
                return n if type(n) is V else K(n)
            if l.k == "pure":
                nm, args = l.a[0], l.a[1]
                if nm == "not":
                    x = self.simp(st, args[0])
                    if x.k == "k":
                        return K(0 if x.a[0] else 1)
                    return v
                if nm == "eq":
                    a = self.simp(st, args[0])
                    b = self.simp(st, args[1])
                    if a is not args[0] or b is not args[1]:
                        return self.eq(st, a, b)
                    for x, y in ((a, b), (b, a)):
                        if x.k == "y" and y.k in ("k", "s"):
                            if self.excluded(st, x.a[0], y.a[0] if y.k == "k" else y):
                                return FALSE
        return v

    def base_bool(self, v):
        """strip negations: returns (label, polarity)"""
        pol = True
        while v.k == "y" and v.a[0].k == "pure" and v.a[0].a[0] == "not":
            v = v.a[0].a[1][0]
            pol = not pol
        return v, pol

    def assume_val(self, st, v, n, isbool=False):
        """assume value v equals integer n"""
        if v.k == "k":
            return v.a[0] == n
        if v.k == "y":
            l = v.a[0]
            if l.k == "pure" and l.a[0] == "not":
                return self.assume_val(st, l.a[1][0], 1 - n)
            if l.k == "pure" and l.a[0] == "eq":
                a, b = l.a[1]
                if a.k in ("k", "s"):
                    a, b = b, a
                if a.k == "y" and b.k in ("k", "s"):
                    c = b.a[0] if b.k == "k" else b
                    if n:
                        return self.assume(st, a.a[0], c)
                    return self.assume_not(st, a.a[0], (c,))
            return self.assume(st, l, n)
        return True

    def fork_bool(self, st, v):
        """yield (state, bool) for both feasible truth values of v"""
        v = self.simp(st, v)
        if v.k == "k":
            return [(st, bool(v.a[0]))]
        out = []
        for b in (1, 0):
            s2 = st.copy()
            if self.assume_val(s2, v, b):
                out.append((s2, bool(b)))
        return out

    def fork_variant(self, st, v, n):
        """yield (state, variant index) for enum value v with n variants"""
        if v.k == "a":
            return [(st, v.a[1])]
        l = self.discr_label(v)
        if l is None:
            return [(st.copy(), i) for i in range(n)]
        self.nvar.setdefault(l, n)
        k = self.fact(st, l)
        if k is not None:
            return [(st, k)]
        out = []
        for i in range(n):
            s2 = st.copy()
            if self.assume(s2, l, i):
                out.append((s2, i))
        return out

    def discr_label(self, v):
        if v.k == "y":
            return mk("discr", v.a[0])
        if v.k == "o":
            return mk("discr", v.a[0])
        return None

    def payload(self, v, vi, idx, vname):
        """field idx of variant vi of v"""
        if v.k == "a":
            return v.a[2][idx] if idx < len(v.a[2]) else Y(mk("wid", "payload"))
        if v.k == "y":
            return Y(fld(v.a[0], idx, vname + "." + str(idx)))
        if v.k == "o":
            for n, x in v.a[1]:
                if n[1] == vname + "." + str(idx):
                    return x
            return Y(fld(v.a[0], idx, vname + "." + str(idx)))
        return Y(mk("wid", "payload"))

    # ------------------------------------------------------------ memory
    def unwind(self, l):
        path = []
        while l.k == "f":
            path.append(("f", l.a[1], l.a[2]))
            l = l.a[0]
        path.reverse()
        return ("S", l), tuple(path)

    def base(self, st, root):
        t = root[0]
        if t == "L":
            v = st.fr[root[1]].loc.get(root[2]) if root[1] < len(st.fr) else None
            if v is None:
                return mk("moved")
            return v
        if t == "S":
            return st.mem.get(root) or Y(root[1])
        if t == "H":
            return st.mem.get(root) or mk("moved")
        if t == "P":
            return root[1]
        raise Unsupported("root " + str(root))

    def proj(self, st, v, e):
        t = e[0]
        k = v.k
        if t == "f":
            if k == "a":
                return v.a[2][e[1]] if e[1] < len(v.a[2]) else Y(mk("wid", "field"))
            if k == "t":
                return v.a[0][e[1]] if e[1] < len(v.a[0]) else Y(mk("wid", "field"))
            if k in ("clo", "cor"):
                return v.a[1][e[1]]
            if k == "y":
                return Y(fld(v.a[0], e[1], e[2]))
            if k == "o":
                for n, x in v.a[1]:
                    if n[1] == e[2]:
                        return x
                return Y(fld(v.a[0], e[1], e[2]))
            if k == "uninit":
                return v
            if k == "r":
                return self.proj(st, self.full(st, v), e)
            return Y(mk("wid", "proj"))
        if t == "i":
            if k == "v":
                segs = v.a[0]
                i = e[1]
                if i.k == "k":
                    n = i.a[0]
                    if all(s[0] == "one" for s in segs[: n + 1]) and n < len(segs):
                        return segs[n][1]
                if i.k == "y":
                    w = st.mem.get(("X", i.a[0]))
                    if w is not None and w.a[0][0] is v:
                        return w.a[0][1]
                    if len(segs) == 1 and segs[0][0] == "all":
                        return Y(mk("idx", segs[0][1], i))
                return Y(mk("wid", "index"))
            if k == "y":
                if e[1].k == "y":
                    w = st.mem.get(("X", e[1].a[0]))
                    if w is not None and w.a[0][0] is v:
                        return w.a[0][1]
                return Y(mk("idx", v.a[0], e[1]))
            return Y(mk("wid", "index"))
        if t == "ci":
            if k == "v":
                segs = v.a[0]
                if all(s[0] == "one" for s in segs):
                    i = len(segs) - e[1] if e[3] else e[1]
                    if 0 <= i < len(segs):
                        return segs[i][1]
            if k == "y":
                return Y(mk("idx", v.a[0], K(-e[1] if e[3] else e[1])))
            return Y(mk("wid", "index"))
        if t == "me":
            key = e[1]
            if k == "hm":
                for ek, ev in v.a[1]:
                    if ek is key:
                        return ev
            b = v.a[0] if k in ("hm", "y", "o") else None
            if b is None:
                return Y(mk("wid", "entry"))
            return Y(fld(mk("pure", "get", (Y(b), key)), 0, "Some.0"))
        return Y(mk("wid", "proj"))

    def read(self, st, root, path):
        v = self.base(st, root)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        k = v.k
        if k in ("uninit", "moved"):
            return val if k == "uninit" else Y(mk("wid", "partial"))
        if e[0] == "f":
            if k == "a":
                fs = list(v.a[2])
                while len(fs) <= e[1]:
                    fs.append(mk("moved"))
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return mk("a", v.a[0], v.a[1], tuple(fs))
            if k == "t":
                fs = list(v.a[0])
                while len(fs) <= e[1]:
                    fs.append(mk("moved"))
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return mk("t", tuple(fs))
            if k in ("clo", "cor"):
                fs = list(v.a[1])
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return mk(k, v.a[0], tuple(fs))
            if k in ("y", "o"):
                l = v.a[0]
                ov = dict((n[1], (n, x)) for n, x in (v.a[1] if k == "o" else ()))
                cur = ov[e[2]][1] if e[2] in ov else Y(fld(l, e[1], e[2]))
                nv = self.upd(st, cur, path[1:], val)
                if nv is Y(fld(l, e[1], e[2])):
                    ov.pop(e[2], None)
                else:
                    ov[e[2]] = ((e[1], e[2]), nv)
                if not ov:
                    return Y(l)
                return mk("o", l, tuple(ov[n] for n in sorted(ov)))
            if k in ("r", "arc"):
                # writing through an owned pointer stored in a place
                root, p0 = self.target(st, v, None, None)
                self.write(st, root, p0 + path, val)
                return v
        if e[0] == "i" and k == "v" and e[1].k == "k":
            sg = list(v.a[0])
            n = e[1].a[0]
            if n < len(sg) and all(s[0] == "one" for s in sg[: n + 1]):
                sg[n] = ("one", self.upd(st, sg[n][1], path[1:], val))
                return mk("v", tuple(sg))
        if e[0] == "me" and k in ("hm", "y", "o"):
            base, ents = N.mapparts(v)
            cur = self.proj(st, v, e)
            nv = self.upd(st, cur, path[1:], val)
            return hmap(base, tuple([x for x in ents if x[0] is not e[1]] + [(e[1], nv)]))
        return Y(mk("wid", "upd"))

    def write(self, st, root, path, val):
        if path:
            val = self.upd(st, self.base(st, root), path, val)
        t = root[0]
        if t == "L":
            st.fr[root[1]].loc[root[2]] = val
        elif t == "P":
            pass
        else:
            if t == "S" and val.k == "y" and val.a[0] is root[1]:
                st.mem.pop(root, None)
            else:
                st.mem[root] = val

    def deref1(self, st, v):
        """the value a pointer value points to (identity for owned values)"""
        k = v.k
        if k == "r":
            return self.read(st, v.a[0], v.a[1])
        if k == "y" and v.a[0].k in ("arg", "f", "call", "el", "out", "pure", "old", "lk", "idx"):
            root, path = self.unwind(v.a[0])
            if root in st.mem:
                return self.read(st, root, path)
            return v
        if k == "arc":
            return self.base(st, ("H", v.a[0]))
        if k == "guard":
            return self.read(st, v.a[0], v.a[1])
        return v

    def full(self, st, v):
        """strip all pointers"""
        n = 0
        while v.k in ("r", "arc", "guard") or v.k == "y":
            w = self.deref1(st, v)
            if w is v:
                return v
            v = w
            n += 1
            if n > 20:
                return v
        return v

    def deep(self, st, v, d=0):
        """strip pointers everywhere inside an aggregate (for comparisons / reports)"""
        v = self.full(st, v)
        if d > 8:
            return v
        if v.k == "a":
            return mk("a", v.a[0], v.a[1], tuple(self.deep(st, x, d + 1) for x in v.a[2]))
        if v.k == "t":
            return mk("t", tuple(self.deep(st, x, d + 1) for x in v.a[0]))
        if v.k == "v":
            return seq(self._dsegs(st, v.a[0], d))
        if v.k == "hm":
            return mk("hm", v.a[0], tuple((self.deep(st, a, d + 1), self.deep(st, b, d + 1)) for a, b in v.a[1]))
        if v.k == "o":
            return mk("o", v.a[0], tuple((n, self.deep(st, x, d + 1)) for n, x in v.a[1]))
        if v.k == "fmt":
            return mk("fmt", tuple(self.deep(st, x, d + 1) for x in v.a[0]))
        return v

    def _dsegs(self, st, segs, d):
        out = []
        for s in segs:
            if s[0] == "one":
                out.append(("one", self.deep(st, s[1], d + 1)))
            elif s[0] in ("rep", "alt"):
                out.append((s[0], tuple(self._dsegs(st, s[1], d + 1))))
            else:
                out.append(s)
        return out

    def loc(self, st, place, depth=None):
        d = len(st.fr) - 1 if depth is None else depth
        f = st.fr[d]
        root = ("L", d, place[0])
        path = ()
        var = None
        for e in place[1]:
            t = e[0]
            if t == "*":
                v = self.read(st, root, path)
                root, path = self.target(st, v, root, path)
            elif t == "f":
                path = path + (("f", e[1], (var + "." + e[2]) if var else e[2]),)
                var = None
            elif t == "v":
                var = e[2]
            elif t == "i":
                path = path + (("i", self.simp(st, self.full(st, f.loc.get(e[1]) or Y(mk("wid", "i"))))),)
            elif t == "ci":
                path = path + (("ci", e[1], e[2], e[3]),)
            else:
                path = path + (("s",) + tuple(e[1:]),)
        return root, path

    def target(self, st, v, root, path):
        """location denoted by dereferencing value v which is stored at (root, path)"""
        k = v.k
        if k == "r":
            return v.a[0], v.a[1]
        if k == "arc":
            return ("H", v.a[0]), ()
        if k == "guard":
            return v.a[0], v.a[1]
        if k == "y":
            return self.unwind(v.a[0])
        return root, path

    # ------------------------------------------------------------ operands / rvalues
    def const(self, st, c, body):
        if "fn" in c:
            return mk("fn", c["fn"].get("r") or c["fn"]["id"], c["fn"].get("rn") or c["fn"]["n"])
        if "prom" in c:
            return self.promoted(body, c["prom"])
        if "str" in c:
            return S(c["str"])
        if "bytes" in c:
            return mk("b", bytes(c["bytes"]) if isinstance(c["bytes"], list) else c["bytes"])
        if "v" in c:
            return K(int(c["v"]))
        if "var" in c:
            t = body.tys[c["t"]]
            return mk("a", t.get("n", t["s"]), int(c["var"]), ())
        t = body.tys[c["t"]]
        if t["k"] == "tuple" and not t.get("a"):
            return UNIT
        if t["s"] == "()":
            return UNIT
        if t["k"] == "closure":
            return mk("clo", t.get("d") or t.get("n"), ())
        if "def" in c:
            return Y(mk("const", c["def"]))
        if "static" in c:
            return Y(mk("const", c["static"]))
        return Y(mk("const", t["s"]))

    def promoted(self, body, i):
        key = (body.id, body.ispr, i)
        if key in self.promc:
            return self.promc[key]
        p = body.prom[i]
        st = St()
        st.fr = []
        st.mem = {}
        st.facts = {}
        st.auto = None
        st.gen = set()
        st.tr = None
        self.push(st, p, [], None, -1, "prom", None, site=("prom", body.id, i))
        bb = 0
        for _ in range(50):
            bl = p.blocks[bb]
            self.stmts(st, bl)
            t = bl["t"]
            if t[0] == "goto":
                bb = t[1]
            elif t[0] in ("drop",):
                bb = t[2]
            elif t[0] == "ret":
                break
            elif t[0] == "assert":
                bb = t[4]
            else:
                st.fr[-1].loc[0] = Y(mk("const", "promoted:%s:%s" % (body.id, i)))
                break
        v = self.full_prom(st, st.fr[-1].loc.get(0) or UNIT)
        self.promc[key] = v
        return v

    def full_prom(self, st, v):
        """promoted values never change: references become transparent"""
        if v.k == "r":
            return self.full_prom(st, self.read(st, v.a[0], v.a[1]))
        if v.k == "a":
            return mk("a", v.a[0], v.a[1], tuple(self.full_prom(st, x) for x in v.a[2]))
        if v.k == "t":
            return mk("t", tuple(self.full_prom(st, x) for x in v.a[0]))
        if v.k == "v":
            return mk("v", tuple(("one", self.full_prom(st, s[1])) if s[0] == "one" else s for s in v.a[0]))
        return v

    def operand(self, st, o):
        f = st.fr[-1]
        k = o[0]
        if k == "k":
            return self.const(st, o[1], f.body)
        p = o[1]
        if not p[1]:
            v = f.loc.get(p[0])
            if v is None:
                return mk("moved")
            if k == "m":
                del f.loc[p[0]]
            return v
        root, path = self.loc(st, p)
        v = self.read(st, root, path)
        if k == "m" and root[0] == "L" and v.k in ("guard",):
            self.write(st, root, path, mk("moved"))
        return v

    def rvalue(self, st, r, line):
        k = r[0]
        f = st.fr[-1]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            root, path = self.loc(st, r[2])
            # reborrow of a transparent place
            if root[0] == "P":
                return root[1]
            p = r[2]
            if root == ("L", len(st.fr) - 1, p[0]) and not path and p[1] and p[1][0][0] == "*" \
                    and f.body.tys[f.body.locals[p[0]][0]]["k"] == "ref":
                # the local holds what it refers to (a literal, say): so does its reborrow, which may outlive it
                return self.read(st, root, ())
            return mk("r", root, path)
        if k == "agg":
            a = r[1]
            ops = [self.operand(st, x) for x in r[2]]
            if a[0] == "arr":
                return mk("v", tuple(("one", x) for x in ops))
            if a[0] == "tup":
                return mk("t", tuple(ops))
            if a[0] == "adt":
                if len(a) > 4 and a[4] is not None and a[4] >= 0:  # union field
                    return ops[0] if ops else UNIT
                return mk("a", a[1], a[2], tuple(ops))
            if a[0] == "clo":
                return mk("clo", a[1], tuple(ops))
            if a[0] == "cor":
                return mk("cor", a[1], tuple(ops))
            return Y(mk("wid", "agg"))
        if k == "cast":
            v = self.operand(st, r[1])
            if len(r) > 3:
                to, of = f.body.tys[r[2]].get("s"), f.body.tys[r[3]].get("s")
                if lossy(of, to):
                    v = self.full(st, v)
                    if v.k == "y":
                        return Y(mk("pure", "as " + to, (v,)))
                    if v.k == "k" and type(v.a[0]) is int and to in INTS:
                        lo, hi = INTS[to]
                        return K((v.a[0] - lo) % (hi - lo + 1) + lo)
            return v
        if k == "bin":
            a = self.simp(st, self.full(st, self.operand(st, r[2])))
            b = self.simp(st, self.full(st, self.operand(st, r[3])))
            return self.binop(st, r[1], a, b, f.body.exp or f.body.crate == "arfx_models", (f.body.id, line))
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                return self.neg(st, a)
            if r[1] == "PtrMetadata":
                return self.length(st, self.full(st, a))
            return Y(mk("pure", r[1], (a,)))
        if k == "discr":
            root, path = self.loc(st, r[1])
            v = self.full(st, self.read(st, root, path))
            ty = f.body.tys[r[2]] if len(r) > 2 and isinstance(r[2], int) else None
            return self.discr(st, v, ty)
        if k == "repeat":
            v = self.operand(st, r[1])
            return mk("v", (("rep", (("one", v),)),))
        if k == "len":
            root, path = self.loc(st, r[1])
            return self.length(st, self.full(st, self.read(st, root, path)))
        return Y(mk("wid", "rv:" + str(r[0])))

    def discr(self, st, v, ty=None):
        if v.k == "a":
            if v.a[0] == "core::cmp::Ordering":
                return K((v.a[1] - 1) & 0xff)
            ad = self.P.adts.get(v.a[0])
            if ad and v.a[1] < len(ad["variants"]):
                return K(int(ad["variants"][v.a[1]]["discr"] or v.a[1]))
            return K(v.a[1])
        l = self.discr_label(v)
        if l is not None:
            if ty is not None and ty["k"] == "adt":
                ad = self.P.adts.get(ty["n"])
                if ad and ad["kind"] == "enum":
                    self.nvar.setdefault(l, len(ad["variants"]))
            n = self.fact(st, l)
            if n is not None:
                return K(n)
            return Y(l)
        return Y(mk("wid", "discr"))

    def neg(self, st, a):
        a = self.simp(st, a)
        if a.k == "k":
            return K(0 if a.a[0] else 1)
        if a.k == "y" and a.a[0].k == "pure" and a.a[0].a[0] == "not":
            return a.a[0].a[1][0]
        return Y(mk("pure", "not", (a,)))

    def length(self, st, v):
        if v.k == "v":
            if all(s[0] == "one" for s in v.a[0]):
                return K(len(v.a[0]))
            return Y(mk("pure", "len", (v,)))
        if v.k == "s":
            return K(len(v.a[0].encode()))
        if v.k == "hm" and v.a[0] is None and not v.a[1]:
            return K(0)
        r = Y(mk("pure", "len", (v,)))
        return self.simp(st, r)

    def nonempty(self, v):
        if v.k == "v":
            return any(s[0] == "one" for s in v.a[0])
        if v.k == "hm":
            return bool(v.a[1])
        return False

    def is_empty(self, st, v):
        if v.k == "v" and not v.a[0]:
            return TRUE
        if v.k == "hm" and v.a[0] is None and not v.a[1]:
            return TRUE
        if v.k in ("v", "hm") and self.nonempty(v):
            return FALSE
        if v.k == "s":
            return K(1 if not v.a[0] else 0)
        return self.eq(st, self.length(st, v), K(0))

    def lt(self, st, a, b):
        if a.k == "k" and b.k == "k":
            return K(1 if a.a[0] < b.a[0] else 0)
        if a is b:
            return FALSE
        if position(st, a, b):
            return TRUE
        # unsigned lengths
        if b.k == "y" and b.a[0].k == "pure" and b.a[0].a[0] == "len" and a is K(0):
            return self.neg(st, self.eq(st, b, K(0)))
        if a.k == "y" and a.a[0].k == "pure" and a.a[0].a[0] == "len" and b.k == "k":
            if b.a[0] <= 0:
                return FALSE
            if b.a[0] == 1:
                return self.eq(st, a, K(0))
        return self.simp(st, Y(mk("pure", "lt", (a, b))))

    def binop(self, st, op, a, b, fold, site):
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        pair = "WithOverflow" in op
        if o == "Eq":
            return self.eq(st, a, b)
        if o == "Ne":
            return self.neg(st, self.eq(st, a, b))
        if o == "Lt":
            return self.lt(st, a, b)
        if o == "Gt":
            return self.lt(st, b, a)
        if o == "Ge":
            return self.neg(st, self.lt(st, a, b))
        if o == "Le":
            return self.neg(st, self.lt(st, b, a))
        r = self.rule.on_arith(self, st, o, a, b) if o in ("Add", "Sub") else None
        if r is None and a.k == "k" and b.k == "k":
            x, y = a.a[0], b.a[0]
            try:
                z = {
                    "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                    "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y,
                    "Rem": lambda: x % y, "Div": lambda: x // y,
                }[o]()
                if fold or o in ("BitAnd", "BitOr", "BitXor") or abs(z) <= 4:
                    r = K(z)
            except (KeyError, ZeroDivisionError):
                r = None
        if r is None and o in ("BitAnd", "BitOr"):
            # boolean connectives without short circuit
            for x, y in ((a, b), (b, a)):
                if x.k == "k" and o == "BitAnd":
                    r = FALSE if x.a[0] == 0 else (y if x.a[0] == 1 else None)
                elif x.k == "k" and o == "BitOr" and x.a[0] == 0:
                    r = y
        if r is None:
            r = Y(mk("pure", o, (a, b)))
            if r.d > 14:
                r = Y(mk("wid", "arith:%s:%s" % site))
        if pair:
            return T(r, FALSE)
        return r

    def eq(self, st, a, b, d=0):
        a = self.simp(st, self.full(st, a))
        b = self.simp(st, self.full(st, b))
        if a is b:
            return TRUE
        if position(st, a, b) or position(st, b, a):
            return FALSE
        for x, y in ((a, b), (b, a)):
            # a difference of counts (it cannot go below 0) is 0 when they are equal
            if y is K(0) and x.k == "y" and x.a[0].k == "pure" and x.a[0].a[0] == "Sub":
                return self.eq(st, *x.a[0].a[1], d + 1)
        if a.k in ("k", "s", "b") and b.k in ("k", "s", "b"):
            return FALSE if a.k == b.k or True else FALSE
        if a.k == "a" and b.k == "a":
            if a.a[1] != b.a[1]:
                return FALSE
            rs = [self.eq(st, x, y, d + 1) for x, y in zip(a.a[2], b.a[2])]
            rs = [r for r in rs if r is not TRUE]
            if any(r is FALSE for r in rs):
                return FALSE
            if not rs:
                return TRUE
            if len(rs) == 1:
                return rs[0]
            return Y(mk("pure", "and", tuple(rs)))
        for x, y in ((a, b), (b, a)):
            if x.k == "a" and y.k in ("y", "o"):
                ad = self.P.adts.get(x.a[0])
                isenum = (ad["kind"] == "enum") if ad else x.a[0] in ("core::option::Option", "core::result::Result")
                if isenum:
                    l = self.discr_label(y)
                    if ad:
                        self.nvar.setdefault(l, len(ad["variants"]))
                    dv = self.eq(st, Y(l), K(x.a[1]))
                    if dv is FALSE or not x.a[2]:
                        return dv
                    vn = ad["variants"][x.a[1]]["name"] if ad else {"core::option::Option": ["None", "Some"], "core::result::Result": ["Ok", "Err"]}[x.a[0]][x.a[1]]
                    rs = [dv] + [self.eq(st, f, self.payload(y, x.a[1], i, vn)) for i, f in enumerate(x.a[2])]
                    rs = [r for r in rs if r is not TRUE]
                    if any(r is FALSE for r in rs):
                        return FALSE
                    if len(rs) == 1:
                        return rs[0]
                    return Y(mk("pure", "and", tuple(rs))) if rs else TRUE
        if a.k == "fmt" and b.k == "fmt" or a.k in ("fmt", "s") and b.k in ("fmt", "s"):
            pass
        x, y = (a, b) if a.id <= b.id else (b, a)
        r = Y(mk("pure", "eq", (x, y)))
        for p, q in ((a, b), (b, a)):
            if p.k == "y" and q.k in ("k", "s"):
                c = q.a[0] if q.k == "k" else q
                if self.excluded(st, p.a[0], c):
                    return FALSE
                f = self.fact(st, p.a[0])
                if f is not None:
                    return TRUE if f == c else FALSE
        n = self.fact(st, r.a[0])
        if n is not None:
            return K(n)
        return r

    # ------------------------------------------------------------ execution
    def local_ty(self, b, i):
        l = b.locals[i]
        return l if type(l) is int else l[0] if type(l) is list else l["ty"]

    def concrete(self, st, v, ty):
        """a label of a field-less enum whose variant is known becomes that variant (survives the forgetting of facts)"""
        if v.k != "y":
            return v
        while ty["k"] == "ref" and ty.get("a"):
            return v
        a = self.P.adts.get(ty.get("n")) if ty["k"] == "adt" else None
        if a is None or a["kind"] != "enum" or not a.get("ws") or any(x["fields"] for x in a["variants"]):
            return v
        n = self.fact(st, mk("discr", v.a[0]))
        if n is None:
            return v
        for i, x in enumerate(a["variants"]):
            if int(x["discr"]) == n:
                return mk("a", a["name"], i, ())
        return v

    def stmts(self, st, bl):
        """the states after the statements of a block"""
        f = st.fr[-1]
        ctr = counters(f.body)
        for j, s in enumerate(bl["s"]):
            if ctr and (f.bb, j) in ctr and s[0] == "=":
                more = self.count(st, bl, j, *ctr[f.bb, j])
                if more is not None:
                    return more
            self.stmt(st, f, s)
        return [st]

    def stmt(self, st, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, s[2], s[3] if len(s) > 3 else 0)
            pl = s[1]
            if not pl[1]:
                if v.k == "y" and s[2][0] == "use":
                    v = self.concrete(st, v, f.body.tys[self.local_ty(f.body, pl[0])])
                f.loc[pl[0]] = v
            else:
                root, path = self.loc(st, pl)
                self.rule.on_write(self, st, root, path, v, s[3] if len(s) > 3 else 0)
                self.write(st, root, path, v)
        elif k == "dead":
            f.loc.pop(s[1], None)
            f.loc.pop(-1 - s[1], None)

    def counted(self, st, l, t, b, line):
        """A loop counter l, of which t is a copy, is compared with b: the same as drawing the next element of 0..b.
        [(state, is there one)], or None if the counter's value is not the one expected"""
        f = st.fr[-1]
        a = self.simp(st, self.full(st, f.loc.get(t) or mk("moved")))
        b = self.simp(st, self.full(st, b))
        if b.k != "y":
            return None
        L = mk("pure", "range", (K(0), b))
        d = len(st.fr) - 1
        slot = ("L", d, -1 - l)
        if a is K(0):
            site = self.chain(f.chain, (f.body.id, f.bb))
            self.write(st, slot, (), N.numbers(L, site))
        else:
            v = f.loc.get(-1 - l)
            if v is None or v.k != "it" or type(v.a[2]) is not tuple or v.a[2][1] is not L:
                return None
            drawn = list(v.a[2][2:]) or [mk("el", L, v.a[1]), mk("wit", L)]
            if not (a.k == "y" and a.a[0].k == "pure" and a.a[0].a[0] == "Add" and a.a[0].a[1][1] is K(1)
                    and a.a[0].a[1][0].k == "y" and a.a[0].a[1][0].a[0] in drawn):
                return None
        c = Call()
        c.name = c.id = "counter"
        c.fn, c.args, c.dest, c.target, c.line, c.body, c.chain = {}, [mk("r", slot, ())], None, f.bb, line, f.body, f.chain
        c.site, c.destty, c.argtys, c.self_adt, c.gargs = (f.body.id, f.bb), None, [], None, None
        res = []
        for s, v in N.draws(self, st, c, slot, (), st.fr[-1].loc[-1 - l]):
            loc = s.fr[-1].loc
            more = v is not NONE
            loc[l] = v.a[2][0] if more else b
            if t in loc:
                loc[t] = loc[l]
            if not more:
                loc.pop(-1 - l, None)
            res.append((s, more))
        return res

    def count(self, st, bl, j, l, t):
        s = bl["s"][j]
        op = s[2][1]
        o = s[2][3] if op in ("Lt", "Ge", "Ne", "Eq") else s[2][2]
        if s[1][1] or o[0] == "m" and o[1][1]:
            return None
        b = self.operand(st, ["c", o[1]] if o[0] == "m" else o)
        rs = self.counted(st, l, t, b, s[3] if len(s) > 3 else 0)
        if rs is None:
            return None
        out = []
        for s1, more in rs:
            s1.fr[-1].loc[s[1][0]] = K(int(more == (op in ("Lt", "Gt", "Ne"))))
            for x in bl["s"][j + 1:]:
                self.stmt(s1, s1.fr[-1], x)
            out.append(s1)
        return out

    def block(self, st):
        f = st.fr[-1]
        bl = f.body.blocks[f.bb]
        if bl is None:
            return []
        sts = self.stmts(st, bl)
        if len(sts) != 1 or sts[0] is not st:
            return [y for x in sts for y in self.term(x, bl["t"])]
        return self.term(st, bl["t"])

    def term(self, st, t):
        f = st.fr[-1]
        k = t[0]
        if k == "goto":
            f.bb = t[1]
            return [st]
        if k == "switch":
            return self.switch(st, f, t)
        if k == "ret":
            return self.ret(st)
        if k == "unreach":
            return []
        if k == "drop":
            root, path = self.loc(st, t[1])
            v = self.read(st, root, path)
            f.bb = t[2]
            if v.k != "moved":
                self.drop_value(st, v)
                if root[0] == "L" and not path:
                    st.fr[root[1]].loc.pop(root[2], None)
            return [st]
        if k == "call":
            return self.call(st, f, t)
        if k == "assert":
            c = self.simp(st, self.full(st, self.operand(st, t[1])))
            exp = 1 if t[2] in (True, 1, "1", "true") else 0
            out = []
            if c.k == "k":
                if bool(c.a[0]) == bool(exp):
                    f.bb = t[4]
                    return [st]
                self.panic(st, "assert " + str(t[3]), t[5])
                return []
            s2 = st.copy()
            if t[3] != "overflow" and self.assume_val(s2, c, 1 - exp):
                self.panic(s2, "assert " + str(t[3]), t[5])
            if self.assume_val(st, c, exp):
                f.bb = t[4]
                out.append(st)
            return out
        if k == "yield":
            return self.do_yield(st, t)
        raise Unsupported("terminator " + k)

    unwrapped = None

    def panic(self, st, what, line):
        self.rule.on_panic(self, st, what, line)

    def switch(self, st, f, t):
        v = self.simp(st, self.full(st, self.operand(st, t[1])))
        line = t[4] if len(t) > 4 else 0
        cases = [(int(x[0]), x[1]) for x in t[2]]
        other = t[3]
        ty = f.body.tys[t[5]]["s"] if len(t) > 5 and isinstance(t[5], int) else ""
        if v.k == "k":
            n = v.a[0]
            for c, bb in cases:
                if c == n or (n < 0 and (c - n) % (1 << 8) == 0):
                    f.bb = bb
                    return [st]
            f.bb = other
            return [st]
        out = []
        for c, bb in cases:
            if f.body.blocks[bb] and f.body.blocks[bb]["t"][0] == "unreach" and not f.body.blocks[bb]["s"]:
                continue
            s2 = st.copy()
            if self.assume_val(s2, v, c):
                s2.fr[-1].bb = bb
                s2.tr = (st.tr, f.body, line, v, c)
                out.append(s2)
        ob = f.body.blocks[other] if other is not None and other >= 0 else None
        if ob is not None and not (ob["t"][0] == "unreach" and not ob["s"]):
            s2 = st.copy()
            if ty == "bool" and len(cases) == 1:
                good = self.assume_val(s2, v, 1 - cases[0][0])
            else:
                good = True
                for c, _ in cases:
                    good = good and self.assume_not_val(s2, v, c)
            if good:
                s2.fr[-1].bb = other
                s2.tr = (st.tr, f.body, line, v, "other")
                out.append(s2)
        return out

    def assume_not_val(self, st, v, n):
        if v.k == "k":
            return v.a[0] != n
        if v.k == "y":
            l = v.a[0]
            if l.k == "pure" and l.a[0] in ("not", "eq"):
                return self.assume_val(st, v, 1 - n)
            return self.assume_not(st, l, (n,))
        return True

    # ------------------------------------------------------------ calls
    def call(self, st, f, t):
        self.calls += 1
        c = Call()
        fo = t[1]
        c.args = []
        c.body = f.body
        c.line = t[5]
        c.dest = None
        c.target = t[4]
        c.destty = f.body.tys[t[6]] if isinstance(t[6], int) else None
        c.argtys = t[7]
        c.chain = f.chain
        c.site = (f.body.id, f.bb)
        fnv = None
        if fo[0] == "k" and "fn" in fo[1]:
            fn = fo[1]["fn"]
            c.fn = fn
            c.id = fn.get("r") or fn["id"]
            c.name = fn["n"]
        else:
            c.fn = {}
            fnv = self.full(st, self.operand(st, fo))
            if fnv.k == "fn":
                c.id, c.name = fnv.a[0], fnv.a[1]
            else:
                c.id, c.name = None, "indirect"
        if (f.bb, None) in (counters(f.body) or ()):
            r = self.lookup(st, f, t)
            if r is not None:
                return r
        c.args = [self.operand(st, x) for x in t[2]]
        c.dest = self.loc(st, t[3])
        c.gargs = c.fn.get("g")
        c.self_adt = c.fn.get("self")
        if fnv is not None and fnv.k != "fn":
            return self.invoke(st, c, fnv, c.args)
        return self.dispatch(st, c)

    def lookup(self, st, f, t):
        """`get` with a loop counter"""
        l, x = counters(f.body)[f.bb, None]
        v = self.full(st, self.operand(st, ["c", t[2][0][1]] if t[2][0][0] == "m" else t[2][0]))
        if v.k != "y" or t[3][1] or t[4] < 0:
            return None
        rs = self.counted(st, l, x, self.length(st, v), t[5])
        if rs is None:
            return None
        for s, more in rs:
            loc = s.fr[-1].loc
            loc[t[3][0]] = some(self.proj(s, v, ("i", loc[l]))) if more else NONE
            for o in t[2]:
                if o[0] == "m":
                    loc.pop(o[1][0], None)
            s.fr[-1].bb = t[4]
        return [s for s, _ in rs]

    def fin(self, st, c, v):
        """complete call c with value v"""
        if c.target < 0:
            return []
        self.write(st, c.dest[0], c.dest[1], v)
        st.fr[-1].bb = c.target
        return [st]

    def dispatch(self, st, c):
        r = self.rule.on_call(self, st, c)
        if r is not None:
            if r == "kill":
                return []
            if r == "opaque":
                return self.opaque(st, c)
            if type(r) is V:
                return self.fin(st, c, r)
            return r
        # natives first (they know the std paths)
        h = N.TABLE.get(c.name)
        if h is not None:
            r = h(self, st, c)
            if type(r) is V:
                return self.fin(st, c, r)
            if r is not None:
                return r
        m = N.MODELS.get(c.name)
        if m is not None:
            b = self.P.bodies.get("arfx_models::" + m)
            if b is None:
                raise Unsupported("missing model " + m)
            return self.enter(st, c, b, c.args)
        b = self.P.bodies.get(c.id)
        if b is not None and self.overridden(b, c):
            b = None
        if b is None and c.fn.get("trait"):
            b = self.resolve(st, c)
        if b is not None:
            if self.recursing(st, b):
                return self.opaque(st, c)
            return self.enter(st, c, b, c.args)
        r = N.pure(self, st, c)
        if r is not None:
            return self.fin(st, c, r)
        return self.opaque(st, c)

    def heap(self, st, c, v):
        """a heap cell named by its allocation site"""
        l = self.fresh(st, c, "hp", c.name)
        st.mem[("H", l)] = v
        return l

    def overridden(self, b, c):
        # a trait's provided method is not the callee when the receiver's impl is unknown
        return bool(b.j.get("intrait")) and c.fn.get("dyn")

    def resolve(self, st, c):
        """trait method with a statically unknown receiver: look at the receiver value"""
        if not c.args:
            return None
        v = self.full(st, c.args[0])
        adt = v.a[0] if v.k == "a" else None
        if adt is None:
            return None
        tr = c.fn["trait"]
        meth = c.name.split("::")[-1]
        m = self.P.impls.get((tr, adt))
        if m and meth in m:
            return self.P.bodies.get(m[meth])
        if m is not None:
            d = self.P.traits.get(tr, {}).get(meth)
            if d and d[1]:
                return self.P.bodies.get(d[0])
        return None

    def recursing(self, st, b):
        return sum(1 for f in st.fr if f.body is b) >= 2 or len(st.fr) > 40

    def enter(self, st, c, b, args, kind="call", post=None):
        if c.target < 0:
            # diverging workspace function
            self.panic(st, "call " + b.n, c.line)
            return []
        st.fr[-1].bb = c.target
        fr = self.push(st, b, args, c.dest, c.target, kind, post, site=c.site)
        self.rule.on_enter(self, st, b, c)
        return [st]

    def invoke(self, st, c, fv, args, kind="call", post=None):
        """call a function value with a list of arguments"""
        ref = None
        v = fv
        n = 0
        while v.k in ("r", "arc") or (v.k == "y" and self.deref1(st, v) is not v):
            if v.k == "r":
                ref = v
            v = self.deref1(st, v)
            n += 1
            if n > 20:
                break
        if v.k == "fn":
            c2 = c
            c2.id, c2.name = v.a[0], v.a[1]
            c2.args = list(args)
            c2.fn = {"trait": v.a[1].rsplit("::", 1)[0]} if v.a[1].rsplit("::", 1)[0] in self.P.traits else {}
            ctor = N.ctor(self, v, args)
            if ctor is not None:
                return self.fin(st, c, ctor)
            return self.dispatch(st, c2)
        if v.k == "clo":
            b = self.P.bodies.get(v.a[0])
            if b is None:
                return self.opaque(st, c)
            if self.recursing(st, b):
                return self.opaque(st, c)
            byref = b.tys[b.locals[1][0]]["k"] == "ref" if len(b.locals) > 1 else False
            if c.target < 0:
                self.panic(st, "call", c.line)
                return []
            st.fr[-1].bb = c.target
            f = self.push(st, b, [v] + list(args), c.dest, c.target, kind, post, site=c.site)
            if byref:
                if ref is not None:
                    f.loc[1] = ref
                else:
                    f.loc["env"] = v
                    f.loc[1] = mk("r", ("L", len(st.fr) - 1, "env"), ())
            self.rule.on_enter(self, st, b, c)
            return [st]
        r = self.rule.on_indirect(self, st, c, v, args)
        if r is not None:
            return self.fin(st, c, r) if type(r) is V else r
        c.name = "indirect"
        return self.opaque(st, c)

    def fresh(self, st, c, kind="call", name=None, extra=None):
        """new opaque label for this site; the label a previous visit made becomes `old`"""
        l = mk(kind, name or c.name, self.chain(c.chain, c.site), extra)
        self.regen(st, l, c)
        return l

    def regen(self, st, l, c=None):
        if l in st.gen:
            self.relabel(st, l, self.rule.on_regen(self, st, l) or mk("old", l), c)
        else:
            st.gen.add(l)

    def relabel(self, st, l, o, c=None):
        """what was called l is from now on called o; what is known of it is forgotten"""
        # o may stand for something else already: what is known then holds of only one of the two
        merged = l.k != "old" or any(o in v.fr for f in st.fr for v in f.loc.values()) or any(o in v.fr for v in st.mem.values()) or any(o in k.fr for k in st.facts)
        for f in st.fr:
            for k, v in f.loc.items():
                if l.fr <= v.fr:
                    f.loc[k] = rename(v, l, o)
            if f.post is not None:
                f.post = rn_any(f.post, l, o)
            if f.dest is not None:
                f.dest = rn_any(f.dest, l, o)
        mem = {}
        for kk, v in st.mem.items():
            mem[rn_any(kk, l, o)] = rename(v, l, o)
        st.mem = mem
        if not merged:
            st.facts = {rename(k, l, o): (f[0], rn_any(f[1], l, o)) for k, f in st.facts.items()}
        else:
            for fl, fv in list(st.facts.items()):
                if l in fl.fr or o in fl.fr or type(fv[1]) is V and (l in fv[1].fr or o in fv[1].fr):
                    del st.facts[fl]
        st.auto = rn_any(st.auto, l, o)
        if c is not None:
            c.args = [rename(a, l, o) for a in c.args]
            if c.dest is not None:
                c.dest = rn_any(c.dest, l, o)

    def opaque(self, st, c):
        if c.target < 0:
            self.panic(st, "call " + str(c.name), c.line)
            return []
        l = self.fresh(st, c)
        # a &mut argument to code we do not see: its target may change
        if c.name not in N.NOHAVOC and c.argtys:
            for a, ty in zip(c.args, c.argtys):
                t = c.body.tys[ty]
                if t["k"] == "ref" and t["s"].startswith("&") and "mut " in t["s"][:16] and a.k == "r":
                    cur = self.read(st, a.a[0], a.a[1])
                    if cur.k not in ("y", "moved", "run", "susp", "cor", "clo"):
                        h = self.fresh(st, c, "hav", c.name)
                        self.write(st, a.a[0], a.a[1], Y(h))
        if not self.rule.is_stop(c):
            self.unmod[c.name] = self.unmod.get(c.name, 0) + 1
        self.rule.on_opaque(self, st, c, l)
        return self.fin(st, c, Y(l))

    # ------------------------------------------------------------ returns, futures
    def ret(self, st):
        f = st.fr[-1]
        v = f.loc.get(0) or UNIT
        if f.kind != "root":
            v = self.content(st, v, len(st.fr) - 1)
        out = self.rule.on_ret(self, st, f, v)
        if out == "kill":
            return []
        if type(out) is V:
            v = out
        if f.kind == "root":
            if f.post and f.post[0] == "drive":
                # entry returned a future: drive it
                if v.k == "cor":
                    b = self.P.bodies.get(v.a[0])
                    st.fr.pop()
                    self.push(st, b, [mk("t", v.a[1])], None, -1, "root", ("driven",), site=("drive", b.id))
                    return [st]
            self.rule.on_exit(self, st, v)
            return []
        st.fr.pop()
        if f.kind == "poll":
            # coroutine finished: mark the future done, hand Ready(v) to the poller
            root, path = f.post[1]
            self.write(st, root, path, mk("run"))
            v = ready(v)
        elif f.post is not None and f.kind == "post":
            r = f.post[0](self, st, f, v)
            if r is not None:
                if type(r) is V:
                    v = r
                else:
                    return r
        self.write(st, f.dest[0], f.dest[1], v)
        st.fr[-1].bb = f.ret
        return [st]

    def content(self, st, v, n, d=4):
        """references to our own locals cannot escape: what looks like one refers to a value that is its own reference"""
        if v.k == "r" and type(v.a[0]) is tuple and v.a[0][0] == "L" and v.a[0][1] == n and d:
            w = self.read(st, v.a[0], v.a[1])
            return v if w.k in ("moved", "uninit") else self.content(st, w, n, d - 1)
        if d and v.k == "a":
            xs = tuple(self.content(st, x, n, d - 1) for x in v.a[2])
            return v if xs == v.a[2] else mk("a", v.a[0], v.a[1], xs)
        if d and v.k == "t":
            xs = tuple(self.content(st, x, n, d - 1) for x in v.a[0])
            return v if xs == v.a[0] else mk("t", xs)
        return v

    def drop_value(self, st, v):
        if v.k == "guard":
            self.rule.on_unlock(self, st, v)
            self.unlock(st, v)
        elif v.k in ("a",):
            for x in v.a[2]:
                if x.k in ("guard", "a", "t"):
                    self.drop_value(st, x)
        elif v.k == "t":
            for x in v.a[0]:
                if x.k in ("guard", "a", "t"):
                    self.drop_value(st, x)
        self.rule.on_drop(self, st, v)

    def unlock(self, st, g):
        root, path, l = g.a
        if l is not None:
            # shared memory: nothing is known about the content once the lock is gone
            self.write(st, root, path, self.orig(root, path))

    def orig(self, root, path):
        l = root[1]
        for e in path:
            l = fld(l, e[1], e[2])
        return Y(l)

    def lock(self, st, c, ref):
        """Mutex::lock on the mutex at ref; returns guard value"""
        v = ref
        root, path = None, None
        n = 0
        while True:
            if v.k == "r":
                root, path = v.a[0], v.a[1]
                w = self.read(st, root, path)
                if w.k in ("r", "arc") and n < 20:
                    v = w
                    n += 1
                    continue
                if w.k == "y":
                    root, path = self.unwind(w.a[0])
                break
            if v.k == "arc":
                root, path = ("H", v.a[0]), ()
                break
            if v.k == "y":
                root, path = self.unwind(v.a[0])
                break
            raise Unsupported("lock on " + show(v))
        if root[0] == "S":
            mname = self.orig(root, path)
            l = self.fresh(st, c, "lk", mname.a[0])
            self.write(st, root, path, Y(l))
            g = mk("guard", root, path, l)
        else:
            g = mk("guard", root, path, None)
        self.rule.on_lock(self, st, g, c)
        return g

    def in_select(self, st):
        return any(f.kind == "pollfn" for f in st.fr)

    def poll(self, st, c):
        """Future::poll(pin, cx)"""
        ref = c.args[0]
        v = ref
        root = path = None
        n = 0
        while v.k == "r":
            root, path = v.a[0], v.a[1]
            v = self.read(st, root, path)
            n += 1
        while v.k in ("arc", "y") and n < 20:
            w = self.deref1(st, v)
            if w is v:
                break
            root, path = self.target(st, v, root, path)
            v = w
            n += 1
            if v.k == "r":
                root, path = v.a[0], v.a[1]
                v = self.read(st, root, path)
        k = v.k
        if k == "cor":
            b = self.P.bodies.get(v.a[0])
            if b is None:
                return self.opaque(st, c)
            if root is None:
                raise Unsupported("poll of an unrooted coroutine")
            self.write(st, root, path, mk("run"))
            st.fr[-1].bb = c.target
            if self.recursing(st, b):
                l = self.fresh(st, c, "call", b.n)
                return self.fin(st, c, ready(Y(l)))
            self.push(st, b, [mk("t", v.a[1]), c.args[1]], c.dest, c.target, "poll", ("poll", (root, path)), site=c.site)
            self.rule.on_enter(self, st, b, c)
            return [st]
        if k == "susp":
            depth, frames = v.a[0], v.a[1]
            if depth != len(st.fr):
                raise Unsupported("suspended coroutine resumed at another depth")
            self.write(st, root, path, mk("run"))
            st.fr[-1].bb = c.target
            for fz in self.susp[v]:
                st.fr.append(fz.copy())
            base = st.fr[depth]
            base.dest = c.dest
            base.ret = c.target
            base.post = ("poll", (root, path))
            return [st]
        if k == "a" and v.a[0] == "core::future::poll_fn::PollFn":
            clo = v.a[2][0]
            if root is not None:
                fv = mk("r", root, path + (("f", 0, "f"),))
            else:
                fv = clo
            return self.invoke(st, c, fv, [c.args[1]], kind="pollfn")
        if k == "a" and v.a[0].startswith("ready:"):
            return self.fin(st, c, ready(v.a[2][0]))
        if k == "a":
            m = self.P.impls.get(("core::future::future::Future", v.a[0]))
            if m:
                return self.enter(st, c, self.P.bodies[m["poll"]], c.args)
            nm = v.a[0]
            l = self.fresh(st, c, "call", "poll:" + nm)
            return self.poll_opaque(st, c, l)
        if k == "o" or k == "y":
            return self.poll_opaque(st, c, v.a[0])
        if k in ("run", "moved"):
            # polled after completion: unreachable in safe use
            return []
        l = self.fresh(st, c, "call", "poll")
        return self.poll_opaque(st, c, l)

    def poll_opaque(self, st, c, l):
        out = []
        if self.in_select(st) or self.rule.pending_everywhere:
            s2 = st.copy()
            self.rule.on_pending(self, s2, l, c)
            out += self.fin(s2, c, PENDING)
        r = self.rule.on_await(self, st, l, c)
        if r == "kill":
            return out
        if type(r) is list:
            for s2, v in r:
                out += self.fin(s2, c, ready(v))
            return out
        if type(r) is V:
            v = r
        else:
            v = Y(mk("out", l))
        out += self.fin(st, c, ready(v))
        return out

    def do_yield(self, st, t):
        f = st.fr[-1]
        f.bb = t[1]
        # find the poll frame of this coroutine, if it is being polled inside a select
        sel = None
        for i, g in enumerate(st.fr):
            if g.kind == "pollfn":
                sel = i
        if sel is None:
            if self.rule.on_yield(self, st) == "kill":
                return []
            return [st]
        d = None
        for i in range(sel + 1, len(st.fr)):
            if st.fr[i].kind == "poll":
                d = i
                break
        if d is None:
            return [st]
        frames = [g.copy() for g in st.fr[d:]]
        base = frames[0]
        dest, ret, (root, path) = base.dest, base.ret, base.post[1]
        base.dest = None
        base.ret = None
        base.post = None
        kk = mk("susp", d, tuple((id(g.body), g.bb, g.chain, tuple(sorted(g.loc.items(), key=lambda x: str(x[0]))), g.dest, g.ret, g.kind) for g in frames))
        if not hasattr(self, "susp"):
            self.susp = {}
        self.susp[kk] = frames
        del st.fr[d:]
        self.write(st, root, path, kk)
        self.write(st, dest[0], dest[1], PENDING)
        st.fr[-1].bb = ret
        return [st]

    # ------------------------------------------------------------ reporting
    def where(self, st):
        for f in reversed(st.fr):
            if f.body.crate != "arfx_models":
                return f
        return st.fr[-1]

    def path_text(self, st, n=14):
        out = []
        t = st.tr
        while t is not None and len(out) < n:
            par, body, line, v, c = t
            if body.crate != "arfx_models":
                out.append("%s:%s %s -> %s" % (body.file, line, show(v)[:120], c))
            t = par
        out.reverse()
        return out


# the whole numbers of a type, on the 64-bit targets the facts are made for
INTS = {"bool": (0, 1), "char": (0, 0x10FFFF)}
for _b in (8, 16, 32, 64, 128):
    INTS["u%d" % _b] = (0, 2 ** _b - 1)
    INTS["i%d" % _b] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)
INTS["usize"] = INTS["u64"]
FLOATS = {"f32": 24, "f64": 53}


def lossy(of, to):
    """whether `x as to` may be another value (or read differently) than x: `of`; discriminants are isize here, and kept"""
    if of == to or of == "isize":
        return False
    num = set(INTS) | set(FLOATS) | {"isize"}
    if of not in num or to not in num:
        return False
    if of in ("bool", "char") or to in ("bool", "char"):
        return True
    if of in FLOATS:
        return to in INTS or to == "isize" or FLOATS[to] < FLOATS[of]
    lo, hi = INTS[of]
    if to in FLOATS:
        return max(-lo, hi) > 2 ** FLOATS[to]
    a, b = INTS["i64" if to == "isize" else to]
    return lo < a or hi > b
