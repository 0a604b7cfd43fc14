"""Small queries shared by the rules."""
from .vals import *


def struct_with(P, crate, *type_frags):
    """struct having, for each fragment, a field whose type contains it; returns (adt, [field index,..])"""
    for n, a in P.adts.items():
        if a["kind"] != "struct" or not n.startswith(crate + "::"):
            continue
        fs = a["variants"][0]["fields"]
        ix = []
        for fr in type_frags:
            m = [i for i, f in enumerate(fs) if fr in f[1]]
            if not m:
                break
            ix.append(m[0])
        else:
            return a, ix
    return None, None


def fname(a, i, v=0):
    return a["variants"][v]["fields"][i][0]


def field(l, a, name):
    """label of field `name` of struct label l"""
    for i, f in enumerate(a["variants"][0]["fields"]):
        if f[0] == name:
            return fld(l, i, name)
    return None


def variant_index(P, adt, name):
    for i, v in enumerate(P.adts[adt]["variants"]):
        if v["name"] == name:
            return i
    return None


def adt(P, suffix, crate=None):
    for n, a in P.adts.items():
        if (n == suffix or n.endswith("::" + suffix)) and (crate is None or n.startswith(crate + "::")):
            return a
    return None


def impl_of(P, trait_suffix, adt_suffix, method):
    """bodies of `method` in impls of a trait for an ADT"""
    r = []
    for (t, a), m in P.impls.items():
        if (t == trait_suffix or t.endswith("::" + trait_suffix)) and (a == adt_suffix or a.endswith("::" + adt_suffix)):
            if method in m and m[method] in P.bodies:
                r.append(P.bodies[m[method]])
    return r


def method(P, crate, ty, name):
    """inherent method crate::..::ty::name (exactly one type segment)"""
    r = []
    for n, bs in P.byname.items():
        if n.endswith("::" + ty + "::" + name):
            r += [b for b in bs if crate is None or b.crate == crate]
    return r


def labels(v, acc=None):
    """all labels inside a value"""
    if acc is None:
        acc = set()
    st = [v]
    while st:
        x = st.pop()
        if type(x) is V:
            if x.k in LABK:
                acc.add(x)
            st.extend(x.a)
        elif type(x) in (tuple, frozenset):
            st.extend(x)
    return acc


def mentions(v, l):
    st = [v]
    while st:
        x = st.pop()
        if x is l:
            return True
        if type(x) is V:
            st.extend(x.a)
        elif type(x) in (tuple, frozenset):
            st.extend(x)
    return False


def has_call(v, suffix):
    """does v contain the result of a call whose path ends with suffix"""
    for l in labels(v):
        if l.k == "call" and type(l.a[0]) is str and l.a[0].endswith(suffix):
            return True
    return False
