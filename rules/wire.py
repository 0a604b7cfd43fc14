"""What is written (serde::Serialize) is read back (serde::Deserialize) as the same value.

The two implementations of a type are composed over abstract documents: `serialize` is interpreted on one arbitrary
value, the calls to the serializer build the document; `deserialize` is interpreted on that document, and what it
returns is compared with the value it came from, field by field. Both are decided from the MIR of the implementations
(derived or not); no value is ever made."""
from ar import q
from ar.summ import Summary
from ar.vals import *


def label(v):
    return v.a[0] if v.k == "y" else None



SER = "serde_core::ser::Serialize"
DE = "serde_core::de::Deserialize"
VIS = "serde_core::de::Visitor"
me = mk("arg", "self")
# a handle of the process a value lives in: it is made anew where the value is read
LOCAL = ("AstroRunSignal",)


def equal(P, v, l, facts, name=None):
    """v is the value labelled l, taken apart and put together again, given what is known of l"""
    if v is Y(l):
        return True
    if v.k == "k":
        return facts.get(l) == ("=", v.a[0])
    if v.k == "v" and not v.a[0]:
        return facts.get(mk("pure", "empty", (Y(l),))) == ("=", 1) or any(
            k.k == "pure" and k.a[0] == "len" and f == ("=", 0) and l in q.labels(k.a[1][0]) for k, f in facts.items())
    if v.k != "a":
        return False
    ad = P.adts.get(v.a[0])
    names = None
    if ad is not None and ad["kind"] == "enum" or ad is None and v.a[0].rsplit("::", 1)[-1] in ("Option", "Result", "Ordering"):
        if facts.get(mk("discr", l)) != ("=", v.a[1]):
            return False
        if ad is not None:
            names = ["%s.%s" % (ad["variants"][v.a[1]]["name"], f[0]) for f in ad["variants"][v.a[1]]["fields"]]
        elif v.a[2]:
            names = [(("Some.0", "Ok.0", "Err.0")[("Option", "Result").index(v.a[0].rsplit("::", 1)[-1]) + v.a[1] - (v.a[0].endswith("Option"))])]
    elif ad is not None:
        names = [f[0] for f in ad["variants"][0]["fields"]]
    if not v.a[2]:
        return ad is not None or v.a[0].startswith("core::")
    for i, x in enumerate(v.a[2]):
        if x.k == "y" and x.a[0].k == "f" and x.a[0].a[0] is l and x.a[0].a[1] == i:
            continue
        if names is None or not equal(P, x, fld(l, i, names[i]), facts):
            return False
    return True


def canon(s):
    """the text of a type without references and lifetimes"""
    import re
    s = re.sub(r"'\w+ ?", "", s)
    s = s.replace("&mut ", "").replace("&", "").strip()
    return s


def garg(c, i):
    g = c.gargs or ()
    return c.body.tys[g[i]] if i < len(g) else {"s": "?", "k": "other"}


def elem_ty(t, tys):
    while t["k"] in ("ref", "ptr") and t.get("a"):
        t = tys[t["a"][0]]
    return t


class Ser(Summary):
    """docs: ((label, document so far), ..)"""

    def __init__(self, P):
        super().__init__(name="serialize")
        self.P = P
        self.bad = []

    def get(self, st, v):
        l = label(v)
        for k, d in st.auto:
            if k is l:
                return d
        return None

    def put(self, st, l, d):
        st.auto = tuple(x for x in st.auto if x[0] is not l) + ((l, d),)

    def new(self, E, st, c, d):
        l = E.fresh(st, c)
        self.put(st, l, d)
        return ok(Y(l))

    def text(self, v):
        return v.a[0] if v.k == "s" else None

    def val(self, E, st, c, v, g):
        v = E.deep(st, v)
        t = elem_ty(garg(c, g), c.body.tys)
        if v.k == "s":
            return ("str", v.a[0])
        return ("val", v, canon(t["s"]), t["n"] if t["k"] == "adt" else None)

    def on_call(self, E, st, c):
        n = c.name or ""
        if not n.startswith("serde_core::ser::") and not n.startswith("serde::"):
            return None
        m = n.rsplit("::", 1)[1]
        owner = n.rsplit("::", 2)[1]
        a = c.args
        if owner == "Serializer":
            if m == "serialize_struct":
                return self.new(E, st, c, ("map", ()))
            if m == "serialize_tuple_struct" or m == "serialize_tuple" or m == "serialize_seq":
                return self.new(E, st, c, ("seq", ()))
            if m == "serialize_newtype_struct":
                return self.new(E, st, c, self.val(E, st, c, a[2], 1))
            if m == "serialize_some":
                return self.new(E, st, c, self.val(E, st, c, a[1], 1))
            if m == "serialize_struct_variant":
                return self.new(E, st, c, ("variant", self.text(E.deep(st, a[3])), ("map", ())))
            if m == "serialize_tuple_variant":
                return self.new(E, st, c, ("variant", self.text(E.deep(st, a[3])), ("seq", ())))
            if m == "serialize_newtype_variant":
                return self.new(E, st, c, ("map", ((self.text(E.deep(st, a[3])), self.val(E, st, c, a[4], 1)),)))
            if m == "serialize_unit_variant":
                return self.new(E, st, c, ("str", self.text(E.deep(st, a[3]))))
            if m in ("serialize_unit", "serialize_unit_struct", "serialize_none"):
                return self.new(E, st, c, ("unit",))
            if m in ("serialize_str", "collect_str"):
                return self.new(E, st, c, self.val(E, st, c, a[1], 1) if m == "collect_str" or E.deep(st, a[1]).k == "s" else ("val", E.deep(st, a[1]), "str", None))
            if m == "serialize_map":
                return self.new(E, st, c, ("map", ()))
            if m == "is_human_readable":
                return K(1)
            if m.startswith("serialize_") and len(a) == 2:
                return self.new(E, st, c, ("val", E.deep(st, a[1]), m[10:], None))
        if m in ("serialize_field", "serialize_element", "end", "skip_field", "serialize_entry") and owner.startswith("Serialize"):
            d = self.get(st, E.full(st, a[0]))
            if d is None:
                d = self.get(st, E.deep(st, a[0]))
            if d is None:
                self.bad.append("a document nobody started is written to (%s)" % m)
                return "kill"
            l = label(E.deep(st, a[0]))
            body = d[2] if d[0] == "variant" else d
            if m == "end":
                if d[0] == "variant":
                    return self.new(E, st, c, ("map", ((d[1], body),)))
                return self.new(E, st, c, d)
            if m == "skip_field":
                return ok(UNIT)
            if body[0] == "map":
                body = ("map", body[1] + ((self.text(E.deep(st, a[1])), self.val(E, st, c, a[2], 2 if m == "serialize_entry" else 1)),))
            else:
                body = ("seq", body[1] + (self.val(E, st, c, a[1], 1),))
            self.put(st, l, ("variant", d[1], body) if d[0] == "variant" else body)
            return ok(UNIT)
        if owner == "Serialize" and m == "serialize":
            v = E.deep(st, a[0])
            t = elem_ty(garg(c, 0), c.body.tys)
            if t["k"] == "adt" and (SER, t["n"]) in self.P.impls and "_" in t["n"].rsplit("::", 1)[1][:2]:
                return None  # a helper of the derived code
            return self.new(E, st, c, self.val(E, st, c, a[0], 0))
        return None


class De(Summary):
    """docs: ((label, document | cursor), ..)"""

    def __init__(self, P):
        super().__init__(name="deserialize")
        self.P = P
        self.mixed = []
        self.bad = []

    get = Ser.get
    put = Ser.put
    text = Ser.text

    def fresh(self, E, st, c, d, name="doc"):
        l = E.fresh(st, c, "call", name)
        self.put(st, l, d)
        return Y(l)

    def fail(self, E, st, c, why):
        self.bad.append(why)
        return err(Y(E.fresh(st, c)))

    def visit(self, E, st, c, vis, m, args, post=None):
        v = E.deep(st, vis)
        ms = self.P.impls.get((VIS, v.a[0])) if v.k == "a" else None
        b = self.P.bodies.get(ms[m]) if ms and m in ms else None
        if b is None:
            return self.fail(E, st, c, "%s does not accept what was written (%s)" % (show(v)[:60], m[6:]))
        return E.enter(st, c, b, [vis] + args) if post is None else E.enter(st, c, b, [vis] + args, kind="post", post=post)

    def read(self, E, st, c, T, d, post, deref=None):
        """a value of type T is read from document d; post(E, st, frame | None, Result<T>) -> the call's value"""
        if d[0] == "val":
            if canon(T["s"]) == d[2] or d[2] in ("str",) and canon(T["s"]) == "alloc::string::String":
                return post[0](E, st, post, ok(d[1]))
            if T["k"] == "adt" and (DE, T["n"]) in self.P.impls and T["n"].rsplit("::", 1)[1].startswith("__"):
                return self.fail(E, st, c, "a value of type %s is read by a function of its own" % d[2])
            return self.fail(E, st, c, "what was written as %s is read as %s" % (d[2], canon(T["s"])))
        if d[0] == "str" and canon(T["s"]) in ("alloc::string::String", "str"):
            return post[0](E, st, post, ok(S(d[1])))
        b = None
        if T["k"] == "adt":
            ms = self.P.impls.get((DE, T["n"]))
            b = self.P.bodies.get(ms["deserialize"]) if ms else None
        if b is None:
            return self.fail(E, st, c, "%s is read from %s" % (canon(T["s"]), d[0]))
        x = self.fresh(E, st, c, d)
        return E.enter(st, c, b, [x], kind="post", post=post)

    def on_call(self, E, st, c):
        n = c.name or ""
        if not n.startswith("serde_core::de::") and not n.startswith("serde::"):
            return None
        m = n.rsplit("::", 1)[1]
        owner = n.rsplit("::", 2)[1]
        a = c.args
        if owner == "Error" or owner == "de" and m == "missing_field" or m == "missing_field":
            if m == "missing_field" and owner != "Error":
                T = garg(c, 0)
                if T["s"].startswith("core::option::Option"):
                    return ok(NONE)
                return self.fail(E, st, c, "the field %s was not written" % show(E.deep(st, a[0])))
            self.bad.append("%s(%s)" % (m, ", ".join(show(E.deep(st, x))[:40] for x in a)))
            return Y(E.fresh(st, c))
        if owner == "Deserializer" or m in ("deserialize_any", "deserialize_struct", "deserialize_enum"):
            d = self.get(st, E.deep(st, a[0]))
            if d is None:
                return self.fail(E, st, c, "something else than the document is read")
            vis = a[-1]
            if d[0] == "val" and m != "deserialize_newtype_struct":
                return self.fail(E, st, c, "%s is read as %s" % (d[2], m[12:]))
            if m == "deserialize_newtype_struct":
                return self.visit(E, st, c, vis, "visit_newtype_struct", [a[0]])
            if m in ("deserialize_struct", "deserialize_map", "deserialize_any", "deserialize_tuple_struct", "deserialize_tuple", "deserialize_seq"):
                if d[0] == "map":
                    if m in ("deserialize_tuple_struct", "deserialize_tuple", "deserialize_seq"):
                        return self.fail(E, st, c, "a list is read from a map")
                    return self.visit(E, st, c, vis, "visit_map", [self.fresh(E, st, c, ("cursor", d[1], 0))])
                if d[0] == "seq":
                    return self.visit(E, st, c, vis, "visit_seq", [self.fresh(E, st, c, ("cursor", d[1], 0))])
                return self.fail(E, st, c, "a struct is read from %s" % d[0])
            if m == "deserialize_enum":
                if d[0] == "str":
                    return self.visit(E, st, c, vis, "visit_enum", [self.fresh(E, st, c, ("enum", d[1], None))])
                if d[0] == "map" and len(d[1]) == 1:
                    return self.visit(E, st, c, vis, "visit_enum", [self.fresh(E, st, c, ("enum",) + d[1][0])])
                return self.fail(E, st, c, "a variant is read from %s" % d[0])
            if m in ("deserialize_identifier", "deserialize_str", "deserialize_string"):
                if d[0] == "str":
                    return self.visit(E, st, c, vis, "visit_str", [S(d[1])])
                return self.fail(E, st, c, "text is read from %s" % d[0])
            if m in ("deserialize_unit", "deserialize_unit_struct") and d[0] == "unit":
                return self.visit(E, st, c, vis, "visit_unit", [])
            return self.fail(E, st, c, "%s is read by %s" % (d[0], m))
        if owner == "MapAccess" or owner == "SeqAccess":
            cur = self.get(st, E.deep(st, a[0]))
            if cur is None or cur[0] != "cursor":
                return self.fail(E, st, c, "something else than the document is read")
            l = label(E.deep(st, a[0]))
            xs, i = cur[1], cur[2]
            if m == "next_key":
                if i >= len(xs):
                    return ok(NONE)
                return self.read(E, st, c, garg(c, 1), ("str", xs[i][0]), (opt,))
            if m == "next_value":
                self.put(st, l, ("cursor", xs, i + 1))
                T = garg(c, 1)
                if T["s"].endswith("IgnoredAny"):
                    return ok(UNIT)
                return self.read(E, st, c, T, xs[i][1], (same,))
            if m == "next_element":
                if i >= len(xs):
                    return ok(NONE)
                self.put(st, l, ("cursor", xs, i + 1))
                return self.read(E, st, c, garg(c, 1), xs[i], (opt,))
            if m == "size_hint":
                return NONE
        if owner == "EnumAccess" and m == "variant":
            d = self.get(st, E.deep(st, a[0]))
            if d is None or d[0] != "enum":
                return self.fail(E, st, c, "something else than the document is read")
            return self.read(E, st, c, garg(c, 1), ("str", d[1]), (withacc, E.deep(st, a[0])))
        if owner == "VariantAccess":
            d = self.get(st, E.deep(st, a[0]))
            if d is None or d[0] != "enum":
                return self.fail(E, st, c, "something else than the document is read")
            x = d[2]
            if m == "unit_variant":
                return ok(UNIT) if x is None else self.fail(E, st, c, "the content of variant %s is dropped" % d[1])
            if x is None:
                return self.fail(E, st, c, "variant %s has no content" % d[1])
            if m == "newtype_variant":
                return self.read(E, st, c, garg(c, 1), x, (same,))
            if m == "struct_variant":
                k = {"map": "visit_map", "seq": "visit_seq"}.get(x[0])
                return self.visit(E, st, c, a[-1], k, [self.fresh(E, st, c, ("cursor", x[1], 0))]) if k else self.fail(E, st, c, "variant %s is read as a struct" % d[1])
            if m == "tuple_variant":
                return self.visit(E, st, c, a[-1], "visit_seq", [self.fresh(E, st, c, ("cursor", x[1], 0))]) if x[0] == "seq" else self.fail(E, st, c, "variant %s is read as a tuple" % d[1])
        if owner == "Deserialize" and m == "deserialize":
            T = garg(c, 0)
            x = E.deep(st, a[0])
            d = self.get(st, x)
            if x.k == "a" and x.a[0].endswith("ContentRef"):
                d = self.get(st, x.a[2][0])
            if d is None:
                return self.fail(E, st, c, "something else than the document is read")
            r = self.tries(d, T)
            if r is not None:
                if r == 1:
                    return ok(d[1] if d[0] == "val" else S(d[1]))
                if r == 0:
                    return err(Y(E.fresh(st, c)))
            return self.read(E, st, c, T, d, (same,))
        # untagged enums buffer the document, and try one variant after the other
        if owner == "ContentVisitor" and m == "new":
            return mk("a", "ContentSeed", 0, ())
        if owner == "DeserializeSeed" and m == "deserialize":
            return ok(a[1])
        if owner in ("ContentRefDeserializer", "ContentDeserializer") and m == "new":
            x = E.deep(st, a[0])
            return mk("a", "ContentRef", 0, (x,))
        return None

    # --- which variant of an untagged enum reads what another one wrote
    def tries(self, d, T):
        """1: reads it as it was written; 0: refuses it; None: read on"""
        t = canon(T["s"])
        if d[0] == "val":
            if d[2] == t:
                return 1
            a, b = self.shape(d[2], d[3]), self.shape(t, T["n"] if T["k"] == "adt" else None)
            if a and b and not self.accepts(b, a):
                return 0
            self.mixed.append("what was written as %s is possibly read as %s" % (d[2], t))
            return 0
        return None

    PRIM = {"bool": "bool", "alloc::string::String": "str", "str": "str", "f64": "num", "f32": "num"}

    def shape(self, t, adt):
        if t in self.PRIM:
            return (self.PRIM[t],)
        if t[0] in "iu" and (t[1:].isdigit() or t[1:] == "size"):
            return ("num",)
        if t.startswith("alloc::vec::Vec<"):
            return ("seq",)
        if adt in self.P.adts and self.P.adts[adt]["kind"] == "struct":
            w = writes(self.P, adt)
            if w is not None and len(w) == 1 and w[0][1][0] == "map":
                xs = [(k, x) for k, x in w[0][1][1] if x[0] == "val"]
                return ("map", tuple(k for k, _ in xs), tuple(k for k, x in xs if not x[2].startswith("core::option::Option")), tuple(x[2] for _, x in xs))
        return None

    def accepts(self, b, a):
        """a reader of shape b accepts what a writer of shape a wrote"""
        if b[0] == "map" and a[0] == "map":
            return all(k in a[1] for k in b[2])
        if b[0] == "map" and a[0] == "seq":
            return all(t in (STR, "core::option::Option<%s>" % STR) for t in b[3])
        return b[0] == a[0]


def same(E, st, f, v):
    return v


def opt(E, st, f, v):
    """Result<T> -> Result<Option<T>>"""
    if v.k == "a" and v.a[1] == 0:
        return ok(some(v.a[2][0]))
    return v


def withacc(E, st, f, v):
    p = f if type(f) is tuple else f.post
    if v.k == "a" and v.a[1] == 0:
        return ok(mk("t", (v.a[2][0], p[1])))
    return v


def writes(P, adt):
    """[(facts, document, path)] of the serialization of one arbitrary value, or None"""
    c = P.__dict__.setdefault("wire_docs", {})
    if adt not in c:
        m = P.impls.get((SER, adt))
        b = P.bodies.get(m["serialize"]) if m else None
        if b is None:
            return None
        r = Ser(P)
        from ar.report import Reporter
        R = Reporter("P41", "quick")
        R.run(P, r, b, args=[Y(me), Y(mk("arg", "ser"))], auto=())
        out = []
        for x in r.exits:
            if x.v.k == "a" and x.v.a[1] == 0:
                d = [v for k, v in x.ev if k is label(x.v.a[2][0])]
                out.append((x.facts, d[0] if d else None, x.path))
            else:
                out.append((x.facts, None, x.path))
        c[adt] = (out, r.bad, R)
    return c[adt][0]


def trip(P, R, adt):
    """one type"""
    m = P.impls.get((SER, adt))
    md = P.impls.get((DE, adt))
    b = P.bodies.get(m["serialize"])
    db = P.bodies.get(md["deserialize"]) if md else None
    short = adt.rsplit("::", 1)[-1]
    where = "%s:%s" % (b.file, b.line)
    if db is None:
        return
    ws = writes(P, adt)
    _, bad, R2 = P.wire_docs[adt]
    R.engines += R2.engines
    R.entries += R2.entries
    R.incomplete = R.incomplete or R2.incomplete
    ad = P.adts[adt]
    for facts, doc, path in ws:
        if doc is None or any(k is None for k in keys(doc)):
            R.violation("written:" + short, "what is written for a %s is not known (%s)" % (short, "; ".join(bad) or "no document"), where, path)
            continue
        r = De(P)
        start = mk("arg", "de")
        R.run(P, r, db, args=[Y(start)], auto=((start, doc),), facts=facts)
        if r.mixed:
            R.violation("mixed:" + short, "in a %s%s, %s" % (short, var(ad, None), r.mixed[0]), where)
        if not r.exits:
            R.violation("refused:" + short, "a %s that was written as %s cannot be read" % (short, showdoc(doc)), where)
        for x in r.exits:
            R.ob("read-back")
            vi = 0
            if ad["kind"] == "enum":
                f = facts.get(mk("discr", me))
                vi = f[1] if f is not None and f[0] == "=" else None
            if not (x.v.k == "a" and x.v.a[1] == 0):
                R.violation("refused:" + short, "a %s%s that was written as %s cannot be read: %s" % (short, var(ad, vi), showdoc(doc), "; ".join(r.bad[-2:]) or show(x.v)), where, x.path)
                continue
            v = x.v.a[2][0]
            known = dict(facts)
            known.update(x.facts)
            if equal(P, v, me, known):
                R.ob("field", len(ad["variants"][vi or 0]["fields"]))
                continue
            if v.k != "a" or v.a[0] != adt or vi is None:
                R.violation("other:" + short, "a %s that was written as %s is read as %s" % (short, showdoc(doc), show(v)), where, x.path)
                continue
            if v.a[1] != vi:
                R.violation("variant:" + short, "a %s%s that was written as %s is read as%s" % (short, var(ad, vi), showdoc(doc), var(ad, v.a[1])), where, x.path)
                continue
            vr = ad["variants"][vi]
            for i, (fl, got) in enumerate(zip(vr["fields"], v.a[2])):
                R.ob("field")
                want = [fld(me, i, fl[0]), fld(me, i, vr["name"] + "." + fl[0])]
                if any(equal(P, got, w, known) for w in want):
                    continue
                if any(t in fl[1] for t in LOCAL) and not q.mentions(got, me):
                    R.ob("local")
                    continue
                R.violation("lost:%s.%s" % (short, fl[0]), "the field %s of a %s%s is %s after it was written as %s and read again" % (fl[0], short, var(ad, vi), show(got), showdoc(doc)), where, x.path)


def keys(d):
    if d[0] == "map":
        for k, x in d[1]:
            yield k
            yield from keys(x)
    elif d[0] == "seq":
        for x in d[1]:
            yield from keys(x)


def var(ad, i):
    return " (%s)" % ad["variants"][i]["name"] if ad["kind"] == "enum" and i is not None else ""


def showdoc(d):
    if d[0] == "map":
        return "{%s}" % ", ".join("%s: %s" % (k, showdoc(x)) for k, x in d[1])
    if d[0] == "seq":
        return "[%s]" % ", ".join(showdoc(x) for x in d[1])
    if d[0] == "str":
        return repr(d[1])
    if d[0] == "val":
        return show(d[1]).replace("self.", "")
    return d[0]


def round_trips(P, R):
    for (t, adt) in sorted(P.impls):
        if t == SER and adt in P.adts and (DE, adt) in P.impls:
            trip(P, R, adt)
            R.ob("type")


# ---------------------------------------------------------------- the codec of the calls
class Codec(Summary):
    """events: ("json", item, result) | ("put", bytes) | ("read", source, result); has: what the buffer holds"""

    def on_call(self, E, st, c):
        n = c.name or ""
        if n.startswith("serde_json::"):
            m = n.rsplit("::", 1)[1]
            a = [E.deep(st, x) for x in c.args]
            if m in ("to_writer", "to_writer_pretty", "to_vec", "to_string", "to_vec_pretty", "to_string_pretty"):
                l = E.fresh(st, c)
                s1 = st.copy()
                w = "writer" in m
                s1.auto = s1.auto + (("json", a[1 if w else 0], a[0] if w else None, l, True),)
                st.auto = st.auto + (("json", a[1 if w else 0], a[0] if w else None, l, False),)
                return E.fin(s1, c, ok(UNIT if w else Y(fld(l, 0, "Ok.0")))) + E.fin(st, c, err(Y(fld(l, 0, "Err.0"))))
            if m in ("from_reader", "from_slice", "from_str"):
                l = E.fresh(st, c)
                s1 = st.copy()
                s1.auto = s1.auto + (("read", a[0], None, l, True),)
                st.auto = st.auto + (("read", a[0], None, l, False),)
                return E.fin(s1, c, ok(Y(fld(l, 0, "Ok.0")))) + E.fin(st, c, err(Y(fld(l, 0, "Err.0"))))
        m = n.rsplit("::", 1)[-1]
        if m in ("has_remaining", "remaining", "chunk", "reader", "writer", "copy_to_bytes", "is_empty", "len") and ("buf" in n.lower()):
            if m in ("has_remaining",):
                return Y(mk("pure", "has", (E.deep(st, c.args[0]),)))
            if m in ("remaining", "len"):
                return Y(mk("pure", "left", (E.deep(st, c.args[0]),)))
            return Y(mk("pure", m, (E.deep(st, c.args[0]),)))
        if m in ("put_slice", "put", "extend_from_slice", "write_all") and len(c.args) == 2:
            st.auto = st.auto + (("put", E.deep(st, c.args[1]), E.deep(st, c.args[0]), None, True),)
            return UNIT if m != "write_all" else ok(UNIT)
        return None


def codec(P, R):
    enc = q.impl_of(P, "codec::Encoder", "JsonEncoder", "encode") or [b for (t, a), m in P.impls.items() if t.endswith("codec::Encoder") for b in [P.bodies[m["encode"]]]]
    dec = [P.bodies[m["decode"]] for (t, a), m in P.impls.items() if t.endswith("codec::Decoder") and "decode" in m]
    if not R.need(enc, "tonic Encoder of the calls") or not R.need(dec, "tonic Decoder of the calls"):
        return
    item, buf = Y(mk("arg", "item")), Y(mk("arg", "buf"))
    for b in enc:
        r = Codec(name="encode")
        R.run(P, r, b, args=[Y(mk("arg", "self")), item, buf], auto=())
        for w, p in r.panics:
            R.violation("encode:panic", "encoding can panic: " + w, path=p)
        for x in r.exits:
            R.ob("encode")
            js = [e for e in x.ev if e[0] == "json"]
            put = [e for e in x.ev if e[0] == "put"]
            good = x.v.k == "a" and x.v.a[1] == 0
            full = len(js) == 1 and js[0][1] is item and js[0][4]
            if full and js[0][2] is not None:
                full = q.mentions(js[0][2], buf.a[0]) and not put
            elif full:
                full = len(put) == 1 and q.mentions(put[0][1], js[0][3]) and q.mentions(put[0][2], buf.a[0])
            if good and not full:
                R.violation("encode:part", "a message is said to be encoded, but what was written is %s" % ([show(e[1]) for e in js] or "nothing"), path=x.path)
            if not good and full:
                R.violation("encode:refused", "a message that was encoded is refused", path=x.path)
    for b in dec:
        r = Codec(name="decode")
        R.run(P, r, b, args=[Y(mk("arg", "self")), buf], auto=())
        for w, p in r.panics:
            R.violation("decode:panic", "decoding can panic: " + w, path=p)
        for x in r.exits:
            R.ob("decode")
            rd = [e for e in x.ev if e[0] == "read"]
            has = None
            for l, f in x.facts.items():
                if l.k == "pure" and l.a[0] in ("has", "left"):
                    has = f == ("=", 1) or f[0] == "!" and 0 in f[1] if l.a[0] == "has" or f[0] == "!" else (f != ("=", 0))
            if has is not True and not rd:
                if has is False and x.v.k == "a" and x.v.a[1] == 0 and x.v.a[2][0] is NONE:
                    continue
                R.violation("decode:none", "what is left in the buffer is not looked at: %s" % show(x.v), path=x.path)
                continue
            if len(rd) != 1 or not q.mentions(rd[0][1], buf.a[0]):
                R.violation("decode:other", "a message is not read from the buffer (%s)" % show(x.v), path=x.path)
                continue
            if rd[0][4]:
                if not (x.v.k == "a" and x.v.a[1] == 0 and x.v.a[2][0] is some(Y(fld(rd[0][3], 0, "Ok.0")))):
                    R.violation("decode:lost", "a message that was read is returned as %s" % show(x.v), path=x.path)
            elif not (x.v.k == "a" and x.v.a[1] == 1):
                R.violation("decode:hidden", "a message that cannot be read is returned as %s" % show(x.v), path=x.path)


# ---------------------------------------------------------------- what a user writes
# documented key -> field, of every part of a workflow file (* = required)
KEYS = {
    "UserWorkflow": "name on jobs*",
    "UserJob": "name container working-directories=working_dirs steps* on depends-on=depends_on",
    "UserCommandStep": "name container run* on continue-on-error=continue_on_error environments secrets timeout",
    "UserActionStep": "name uses* with on continue-on-error=continue_on_error environments secrets timeout",
    "ContainerOptions": "name* volumes security-opts=security_opts",
    "PushCondition": "branches paths",
    "PullRequestCondition": "branches paths",
    "ConditionConfig": "push pull_request",
}
STR = "alloc::string::String"


def keytab(name):
    out = []
    for w in KEYS[name].split():
        req = w.endswith("*")
        w = w.rstrip("*")
        k, _, f = w.partition("=")
        out.append((k, f or k, req))
    return out


def readdoc(P, R, adt, doc):
    m = P.impls.get((DE, adt))
    b = P.bodies.get(m["deserialize"]) if m else None
    if not R.need(b, "Deserialize of " + adt.rsplit("::", 1)[-1]):
        return None, None
    r = De(P)
    R.run(P, r, b, args=[Y(mk("arg", "de"))], auto=((mk("arg", "de"), doc),))
    return r, "%s:%s" % (b.file, b.line)


def config_keys(P, R):
    adts = {}
    for n in KEYS:
        a = q.adt(P, n, "astro_run")
        if not R.need(a, n):
            return
        adts[n] = a
    field = lambda n, f: [x for x in adts[n]["variants"][0]["fields"] if x[0] == f]

    def full(n, keep=None, order=1):
        return ("map", tuple((k, ("val", Y(mk("arg", k)), canon(field(n, f)[0][1]), None)) for k, f, req in keytab(n)[::order] if keep is None or k in keep))

    for n in KEYS:
        tab = keytab(n)
        for k, f, req in tab:
            if not field(n, f):
                R.violation("field:%s.%s" % (n, f), "%s has no field for the key `%s`" % (n, k))
                return
        req = [k for k, f, x in tab if x]
        # every subset that matters: all keys (in both orders), each optional key alone next to the required ones, only the required ones
        sets = [(None, 1), (None, -1)] + [(tuple(req), 1)] + [(tuple(req) + (k,), 1) for k, f, x in tab if not x]
        for keep, order in sets:
            doc = full(n, keep, order)
            have = [k for k, _ in doc[1]]
            r, where = readdoc(P, R, adts[n]["name"], doc)
            if r is None:
                return
            for x in r.exits:
                R.ob("read")
                if not (x.v.k == "a" and x.v.a[1] == 0 and x.v.a[2][0].k == "a"):
                    R.violation("refused:%s" % n, "a %s with the keys %s is refused: %s" % (what(n), ", ".join(have), "; ".join(r.bad[-2:]) or show(x.v)), where, x.path)
                    continue
                v = x.v.a[2][0]
                for i, fl in enumerate(adts[n]["variants"][0]["fields"]):
                    ks = [k for k, f, _ in tab if f == fl[0]]
                    R.ob("key")
                    if ks and ks[0] in have:
                        if v.a[2][i] is not Y(mk("arg", ks[0])):
                            R.violation("key:%s.%s" % (n, ks[0]), "the key `%s` of a %s is not read into %s, which is %s" % (ks[0], what(n), fl[0], show(v.a[2][i])), where, x.path)
                    elif q.labels(v.a[2][i]) & {mk("arg", k) for k in have} or not (v.a[2][i] is NONE or not ks):
                        R.violation("key:%s.%s" % (n, fl[0]), "%s of a %s without that key is %s" % (fl[0], what(n), show(v.a[2][i])), where, x.path)
            if not r.exits:
                R.violation("refused:%s" % n, "a %s with the keys %s cannot be read" % (what(n), ", ".join(have)), where)
        for k in req:
            r, where = readdoc(P, R, adts[n]["name"], full(n, [x for x, _, _ in tab if x != k]))
            for x in r.exits:
                R.ob("required")
                if x.v.k == "a" and x.v.a[1] == 0:
                    R.violation("required:%s.%s" % (n, k), "a %s without the key `%s` is accepted" % (what(n), k), where, x.path)
    # the parts that can be written in more than one way
    for name, cases in (
        ("UserStep", [("a step with the key `run`", full("UserCommandStep", ["run"]), "UserCommandStep"), ("a step with the keys " + ", ".join(k for k, _, _ in keytab("UserCommandStep")), full("UserCommandStep"), "UserCommandStep"),
                      ("a step with the key `uses`", full("UserActionStep", ["uses"]), "UserActionStep"), ("a step with the keys " + ", ".join(k for k, _, _ in keytab("UserActionStep")), full("UserActionStep"), "UserActionStep")]),
        ("Container", [("a container given by its image", ("val", Y(mk("arg", "image")), STR, None), STR), ("a container given with options", full("ContainerOptions"), "ContainerOptions"), ("a container given with its name only", full("ContainerOptions", ["name"]), "ContainerOptions")]),
        ("Condition", [("a list of events", ("val", Y(mk("arg", "events")), "alloc::vec::Vec<%s>" % STR, None), "alloc::vec::Vec<%s>" % STR), ("a condition on push", full("ConditionConfig", ["push"]), "ConditionConfig"),
                       ("a condition on pull requests", full("ConditionConfig", ["pull_request"]), "ConditionConfig")]),
        ("EnvironmentVariable", [("a text", ("val", Y(mk("arg", "v")), STR, None), STR), ("a number", ("val", Y(mk("arg", "v")), "f64", None), "f64"), ("true or false", ("val", Y(mk("arg", "v")), "bool", None), "bool")]),
    ):
        a = q.adt(P, name, "astro_run")
        if not R.need(a, name):
            return
        for text, doc, into in cases:
            r, where = readdoc(P, R, a["name"], doc)
            if r is None:
                return
            for x in r.exits:
                R.ob("variant")
                v = x.v.a[2][0] if x.v.k == "a" and x.v.a[1] == 0 else None
                if v is None or v.k != "a" or v.a[0] != a["name"]:
                    R.violation("refused:%s" % name, "%s is refused: %s" % (text, "; ".join(r.bad[-2:]) or show(x.v)), where, x.path)
                    continue
                fl = a["variants"][v.a[1]]["fields"]
                if len(fl) != 1 or not (canon(fl[0][1]) == into or canon(fl[0][1]).endswith("::" + into)):
                    R.violation("variant:%s" % name, "%s is read as %s" % (text, a["variants"][v.a[1]]["name"]), where, x.path)
                elif doc[0] == "val" and v.a[2][0] is not doc[1]:
                    R.violation("variant:%s" % name, "%s becomes %s" % (text, show(v)), where, x.path)
            if not r.exits:
                R.violation("refused:%s" % name, "%s cannot be read" % text, where)


def what(n):
    return {"UserWorkflow": "workflow", "UserJob": "job", "UserCommandStep": "step", "UserActionStep": "action step", "ContainerOptions": "container", "PushCondition": "push condition",
            "PullRequestCondition": "pull_request condition", "ConditionConfig": "condition"}.get(n, n)
