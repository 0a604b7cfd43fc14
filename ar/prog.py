"""Loads the facts dumped by the driver."""
import glob
import json
import os
import re


class Body:
    __slots__ = ("id", "n", "crate", "argc", "file", "line", "locals", "blocks", "prom", "caps", "coroutine", "exp",
                 "spread", "trait", "traitref", "selfty", "parent", "npred", "tys", "j", "pub", "idx", "spans", "ispr",
                 "const", "rel", "ctr")

    def __repr__(self):
        return self.n


CRATES = ["astro_run", "astro_runner", "astro_run_remote_runner", "astro_run_scheduler", "astro_run_protocol",
          "astro_run_logger"]


def short_ty(s):
    return s


class Prog:
    def __init__(self, facts, models, extra=()):
        self.bodies = {}
        self.byname = {}
        self.impls = {}  # (trait, adt) -> {method: id}
        self.traits = {}
        self.adts = {}
        self.crates = []
        files = [os.path.join(models, "arfx_models.json")]
        for c in CRATES:
            files.append(os.path.join(facts, c + ".json"))
        files += list(extra)
        for f in files:
            self.load(f)

    def load(self, f):
        d = json.load(open(f))
        cr = d["crate"]
        self.crates.append(cr)
        tys = d["tys"]
        for j in d["bodies"]:
            b = self.mkbody(j, cr, tys, None)
            if b.id in self.bodies:
                continue
            self.bodies[b.id] = b
            self.byname.setdefault(b.n, []).append(b)
        for im in d["impls"]:
            ty = tys[im["ty"]]
            key = self.tykey(tys, im["ty"])
            if key is None:
                continue
            m = {n: i for n, i in im["m"]}
            self.impls.setdefault((im["trait"], key), {}).update(m)
        for t in d["traits"]:
            self.traits[t["n"]] = {m[0]: (m[1], m[2]) for m in t["m"]}
        for a in d["adts"]:
            self.adts.setdefault(a["name"], a)

    def tykey(self, tys, i):
        t = tys[i]
        while t["k"] in ("ref", "ptr") and t.get("a"):
            t = tys[t["a"][0]]
        if t["k"] == "adt":
            return t["n"]
        return None

    def mkbody(self, j, cr, tys, parent):
        b = Body()
        b.id = j["id"] if parent is None else parent.id + "::prom"
        b.n = j.get("n", b.id)
        b.crate = cr
        b.argc = j["argc"]
        sp = j.get("span", "?:0").rsplit(":", 1)
        b.file = sp[0]
        b.line = int(sp[1]) if len(sp) > 1 and sp[1].isdigit() else 0
        b.locals = j["locals"]
        b.blocks = j["blocks"]
        b.caps = j.get("caps") or []
        b.coroutine = bool(j.get("coroutine"))
        b.exp = bool(j.get("exp"))
        b.spread = j.get("spread")
        b.trait = j.get("trait")
        b.traitref = j.get("traitref")
        b.selfty = j.get("self")
        b.parent = j.get("parent")
        b.pub = j.get("pub")
        b.tys = tys
        b.j = j
        b.ispr = parent is not None
        b.ctr = None
        np = [0] * len(b.blocks)
        for bl in b.blocks:
            if not bl:
                continue
            for s in succs(bl["t"]):
                np[s] += 1
        b.npred = np
        b.prom = [self.mkbody(p, cr, tys, b) for p in (j.get("prom") or [])]
        return b

    def find(self, suffix, crate=None):
        """bodies whose canonical name ends with `suffix` at a path boundary"""
        r = []
        for n, bs in self.byname.items():
            if n == suffix or n.endswith("::" + suffix):
                for b in bs:
                    if crate is None or b.crate == crate:
                        r.append(b)
        return r


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None and t[3] >= 0 else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    if k == "yield":
        return [t[1]]
    return []


def plain(o):
    """the local an operand reads as a whole"""
    return o[1][0] if o[0] in ("c", "m") and not o[1][1] else None


def counters(b):
    """where a loop counter is compared or used as the index of a lookup:
    {(block, statement or None): (counter, the local the operand is read from)}.
    A counter starts at 0, is only ever increased by one, and is looked at in the loop that increases it."""
    if b.ctr is not None:
        return b.ctr
    b.ctr = {}
    kind, ssa, sums, inc = {}, {}, {}, {}
    for i, bl in enumerate(b.blocks):
        if not bl:
            continue
        for s in bl["s"]:
            if s[0] != "=":
                continue
            d, r = s[1], s[2]
            if r[0] == "ref" and r[1] != "s" and not r[2][1]:
                kind[r[2][0]] = "other"
            if d[1]:
                continue
            d = d[0]
            if r[0] == "bin" and r[1].startswith("Add") and plain(r[2]) is not None and r[3][0] == "k" and r[3][1].get("v") in (1, "1"):
                sums.setdefault(d, set()).add(plain(r[2]))
            if r[0] == "use" and r[1][0] == "k" and r[1][1].get("v") in (0, "0"):
                kind.setdefault(d, set()) != "other" and kind[d].add(0)
            elif r[0] == "use" and r[1][0] in ("c", "m") and r[1][1][0] in sums and len(r[1][1][1]) == 1:
                if kind.setdefault(d, set()) != "other":
                    kind[d].add(("sum", r[1][1][0]))
                    inc.setdefault(d, set()).add(i)
            elif r[0] == "use" and plain(r[1]) is not None and d not in ssa and d not in kind:
                ssa[d] = plain(r[1])
            else:
                kind[d] = "other"
        t = bl["t"]
        if t[0] == "call" and not t[3][1]:
            kind[t[3][0]] = "other"
    ctr = {l for l, k in kind.items() if type(k) is set and 0 in k and any(type(x) is tuple for x in k) and all(x == 0 or sums[x[1]] == {l} for x in k)}
    if not ctr:
        return b.ctr

    def base(o):
        l = plain(o)
        return l if l in ctr else ssa.get(l) if ssa.get(l) in ctr and kind.get(l) != "other" else None

    reach = {}

    def reaches(x):
        if x not in reach:
            seen, work = set(), [x]
            while work:
                for y in succs(b.blocks[work.pop()]["t"]):
                    if y not in seen and b.blocks[y]:
                        seen.add(y)
                        work.append(y)
            reach[x] = seen
        return reach[x]

    for i, bl in enumerate(b.blocks):
        if not bl:
            continue
        for j, s in enumerate(bl["s"]):
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Gt", "Le", "Ge", "Ne", "Eq") and bl["t"][0] == "switch":
                o = s[2][2] if s[2][1] in ("Lt", "Ge", "Ne", "Eq") else s[2][3]
                l = base(o)
                if l is not None and any(i in reaches(n) and n in reaches(i) for n in inc[l]):
                    b.ctr[i, j] = (l, plain(o))
        t = bl["t"]
        if t[0] == "call" and len(t[2]) == 2 and t[1][0] == "k" and "fn" in t[1][1] and t[1][1]["fn"]["n"] in ("slice::get",):
            l = base(t[2][1])
            if l is not None and any(i in reaches(n) and n in reaches(i) for n in inc[l]):
                b.ctr[i, None] = (l, plain(t[2][1]))
    return b.ctr
