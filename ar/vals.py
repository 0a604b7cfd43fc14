"""Hash-consed abstract values and labels.

Every value is interned, so equality is identity and states hash cheaply.

Values
  k n            integer / bool / char constant
  s text         string constant (&str or String)
  b bytes        byte string constant
  y L            opaque value named by label L (references are transparent)
  o L ((nm,V)..) value L with some fields overwritten
  a adt vi (V..) aggregate of an ADT variant
  t (V..)        tuple / array of fixed length is `v`
  clo id (V..)   closure          fn n id   function item
  cor id (V..)   not yet started coroutine
  r root path    reference to a memory location
  v segs         sequence: ('one',V) | ('rep',segs) | ('all',L)
  hm base ents   map: base label or None, ents = ((K,V)..)
  it segs site m iterator over segs
  arc c          Arc/Rc pointing to heap cell c
  guard root path L   lock guard
  fmt pieces     formatted string
Labels (a `y` wraps one)
  arg f el call out pure discr lk old wid const
"""


class V:
    __slots__ = ("k", "a", "fr", "d", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_FRESH = ("call", "el", "lk", "hav", "hp")


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = len(_tab)
        fr = set()
        d = 0
        st = list(a)
        while st:
            x = st.pop()
            if type(x) is V:
                fr |= x.fr
                if x.d > d:
                    d = x.d
            elif type(x) is tuple:
                st.extend(x)
        if k in _FRESH:
            fr = {v}
        v.fr = frozenset(fr)
        v.d = d + 1
        _tab[key] = v
    return v


def K(n):
    return mk("k", n)


def S(s):
    return mk("s", s)


def Y(l):
    return mk("y", l)


def T(*f):
    return mk("t", tuple(f))


UNIT = mk("t", ())
TRUE = K(1)
FALSE = K(0)


def some(v):
    return mk("a", "core::option::Option", 1, (v,))


NONE = mk("a", "core::option::Option", 0, ())


def ok(v):
    return mk("a", "core::result::Result", 0, (v,))


def err(v):
    return mk("a", "core::result::Result", 1, (v,))


def ready(v):
    return mk("a", "core::task::poll::Poll", 0, (v,))


PENDING = mk("a", "core::task::poll::Poll", 1, ())


def fld(l, idx, nm):
    return mk("f", l, idx, nm)


_ren = {}


def rename(v, src, dst):
    """replace label src by dst inside value v"""
    if not src.fr <= v.fr and v is not src:
        return v
    key = (src, dst)
    memo = _ren.setdefault(key, {})
    r = memo.get(v)
    if r is None:
        r = _rn(v, src, dst)
        memo[v] = r
    return r


def _rn(v, src, dst):
    if v is src:
        return dst
    if v.k == "old" and len(v.a) > 1:
        return v
    a = tuple(_rt(x, src, dst) for x in v.a)
    if v.k == "v":
        return seq(a[0])
    if v.k == "hm":
        return hmap(a[0], a[1])
    if v.k == "old" and a[0].k in ("old",):
        return a[0]
    return mk(v.k, *a)


def _rt(x, src, dst):
    if type(x) is V:
        return rename(x, src, dst)
    if type(x) is tuple:
        return tuple(_rt(y, src, dst) for y in x)
    return x


def _frs(block):
    for s in block:
        if s[0] in ("rep", "alt"):
            if _frs(s[1]):
                return True
        elif s[1].fr:
            return True
    return False


def seq(segs):
    """normalise: repeated blocks collapse into ('rep', block) = zero or more repeats"""
    out = []
    for s in segs:
        out.append(s)
        again = True
        while again:
            again = False
            n = len(out)
            for p in (1, 2, 3, 4):
                blk = tuple(out[n - p:])
                if n > p and out[n - p - 1] == ("rep", blk):
                    del out[n - p:]
                    again = True
                    break
                if n >= 2 * p and tuple(out[n - 2 * p:n - p]) == blk:
                    if p == 1 and blk[0][0] == "rep":
                        del out[n - 1:]
                    elif _frs(blk):
                        out[n - 2 * p:] = [("rep", blk)]
                    elif n >= 4 * p and tuple(out[n - 4 * p:n - 2 * p]) == blk + blk:
                        out[n - 4 * p:] = [("rep", blk)]
                    else:
                        continue
                    again = True
                    break
    return mk("v", tuple(_alts(out)))


_hasold = {}


def has_old(v):
    r = _hasold.get(v)
    if r is None:
        r = v.k == "old" or _ho(v.a)
        _hasold[v] = r
    return r


def _ho(t):
    for x in t:
        if type(x) is V:
            if has_old(x):
                return True
        elif type(x) is tuple and _ho(x):
            return True
    return False


def _leaves(segs, acc):
    for s in segs:
        if s[0] in ("rep", "alt"):
            _leaves(s[1], acc)
        else:
            acc.add(s)


def _depth(s):
    return 1 + max([_depth(x) for x in s[1]] + [0]) if s[0] in ("rep", "alt") else 0


COARSE = [False]


def set_coarse(on):
    """coarse: whatever earlier iterations pushed is one ('alt', ..) summary"""
    if COARSE[0] != on:
        COARSE[0] = on
        _ren.clear()


def _alts(segs):
    """long histories of earlier elements become ('alt', items): any number of the items, in any order"""
    if COARSE[0]:
        out = []
        acc = None
        for s in list(segs) + [None]:
            if s is not None and (s[0] in ("rep", "alt") or s[0] == "one" and has_old(s[1])):
                acc = set() if acc is None else acc
                _leaves((s,), acc)
                continue
            if acc is not None:
                out.append(("alt", tuple(sorted(acc, key=lambda x: x[1].id))))
                acc = None
            if s is not None:
                out.append(s)
        return out
    if len(segs) < 2 and not any(s[0] == "rep" and _depth(s) > 1 for s in segs):
        return segs
    out = []
    run = []

    def flush():
        acc = set()
        n = 0
        for s in run:
            a = set()
            _leaves((s,), a)
            n += len(a)
            acc |= a
        if len(run) >= 6 or len(acc) < n or any(s[0] == "alt" for s in run) and len(run) > 1 or any(s[0] == "rep" and _depth(s) > 1 for s in run):
            out.append(("alt", tuple(sorted(acc, key=lambda x: x[1].id))))
        else:
            out.extend(run)
        run.clear()

    for s in segs:
        if s[0] in ("rep", "alt") or s[0] == "one" and has_old(s[1]):
            run.append(s)
        else:
            flush()
            out.append(s)
    flush()
    return out


def unhash_segs(segs):
    """all element values occurring in segs"""
    for s in segs:
        if s[0] in ("rep", "alt"):
            yield from unhash_segs(s[1])
        else:
            yield s


def hmap(base, ents):
    out = []
    for e in ents:
        if e not in out:
            out.append(e)
    if len(out) > 1 and all(e[1] is UNIT for e in out):
        out.sort(key=lambda e: e[0].id)
    return mk("hm", base, tuple(out))


def truth(v):
    if v.k == "k":
        return bool(v.a[0])
    return None


def lname(l):
    """readable label"""
    k = l.k
    a = l.a
    if k == "arg":
        return str(a[0])
    if k == "f":
        return "%s.%s" % (lname(a[0]), a[2])
    if k == "el":
        return "elem(%s)" % (lname(a[0]) if type(a[0]) is V else a[0])
    if k == "call":
        return "%s()" % a[0].split("::")[-1]
    if k == "out":
        return "await(%s)" % lname(a[0])
    if k == "wit":
        return "some(%s)" % lname(a[0])
    if k == "old" and len(a) > 1:
        return "earlier(%s: %s)" % (lname(a[0]), a[1])
    if k == "old":
        return "earlier(%s)" % lname(a[0])
    if k == "discr":
        return "variant(%s)" % lname(a[0])
    if k == "lk":
        return "locked(%s)" % show(a[0])
    if k == "pure":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(show(x) for x in a[1]))
    if k == "const":
        return str(a[0])
    return k + "(" + ",".join(show(x) if type(x) is V else str(x) for x in a) + ")"


def show(v, d=0):
    if type(v) is not V:
        return str(v)
    if d > 6:
        return "…"
    k, a = v.k, v.a
    if k == "k":
        return str(a[0])
    if k == "s":
        return repr(a[0])
    if k == "y":
        return lname(a[0])
    if k == "o":
        return "%s{%s}" % (lname(a[0]), ", ".join("%s: %s" % (n[1], show(x, d + 1)) for n, x in a[1]))
    if k == "a":
        n = a[0].split("::")[-1]
        return "%s#%d(%s)" % (n, a[1], ", ".join(show(x, d + 1) for x in a[2]))
    if k == "t":
        return "(%s)" % ", ".join(show(x, d + 1) for x in a[0])
    if k == "v":
        return "[%s]" % showsegs(a[0], d)
    if k == "hm":
        return "map<%s>{%s}" % (lname(a[0]) if a[0] else "", ", ".join("%s: %s" % (show(x, d + 1), show(y, d + 1)) for x, y in a[1]))
    if k in ("clo", "cor"):
        return "%s %s" % (k, a[0])
    if k == "fn":
        return "fn " + a[0]
    if k == "r":
        return "&%s%s" % (a[0], "".join("." + str(p[2] if p[0] == "f" else p) for p in a[1]))
    if k == "fmt":
        return "fmt(%s)" % ", ".join(show(x, d + 1) for x in a[0])
    if k in LABK:
        return lname(v)
    return k + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


def showsegs(segs, d=0):
    return ", ".join(
        "(%s)*" % showsegs(s[1], d + 1) if s[0] == "rep" else "any(%s)" % showsegs(s[1], d + 1) if s[0] == "alt" else ("all " + lname(s[1]) if s[0] == "all" else show(s[1], d + 1))
        for s in segs
    )


VALK = {"k", "s", "b", "y", "o", "a", "t", "clo", "fn", "cor", "r", "v", "hm", "it", "arc", "guard", "fmt", "uninit", "moved", "run", "susp"}
LABK = {"hp", "wit", "arg", "f", "el", "call", "out", "pure", "discr", "lk", "old", "wid", "const", "hav", "idx", "entry"}
