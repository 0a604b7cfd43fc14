"""Abstract semantics of the std / tokio operations the repository uses.

Every handler is `h(E, st, c) -> None | V | [states]`; None means "not handled here".
Anything without a handler or a reference model is an opaque call: a fresh label.
"""
from .vals import *
from .vals import mk

TABLE = {}
TOMB = mk("tomb")
CF = "core::ops::control_flow::ControlFlow"
OPT = "core::option::Option"
RES = "core::result::Result"


def nat(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f

    return d


def out(E, c, pairs):
    r = []
    for s, v in pairs:
        r += E.fin(s, c, v)
    return r


def ws(E, c):
    """callee is a workspace body that is not derived code"""
    b = E.P.bodies.get(c.id)
    return b is not None and not b.exp


def tyof(c, i):
    return c.body.tys[c.argtys[i]] if c.argtys and i < len(c.argtys) else {"s": "", "k": ""}


def strip(t):
    s = t["s"]
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    return s


STRT = ("alloc::string::String", "str", "alloc::borrow::Cow<'_, str>")


def is_str_ty(s):
    return s in STRT or s.startswith("alloc::borrow::Cow<")


def strcat(ps, most=24):
    o = []
    for p in ps:
        if p.k == "fmt":
            o += list(p.a[0])
        else:
            o.append(p)
    r = []
    for p in o:
        if p.k == "s" and r and r[-1].k == "s":
            r[-1] = S(r[-1].a[0] + p.a[0])
        elif p.k == "s" and not p.a[0]:
            continue
        else:
            r.append(p)
    if not r:
        return S("")
    if len(r) == 1 and (r[0].k == "s" or r[0].k == "y"):
        return r[0]
    # repeated pieces collapse so that strings built in loops stay finite
    if len(r) > most:
        return Y(mk("wid", "string"))
    return mk("fmt", tuple(r))


def display(E, st, v, ty, kind="display"):
    v = E.full(st, v)
    if kind == "display":
        if v.k in ("s", "fmt"):
            return v
        if v.k == "k" and "bool" not in ty and "char" not in ty:
            return S(str(v.a[0]))
        if v.k == "y" and (v.a[0].k == "pure" and v.a[0].a[0] in ("display", "to_string", "join") or is_str_ty(strip({"s": ty}))):
            return v
    return Y(mk("pure", kind, (E.deep(st, v),)))


# ------------------------------------------------------------------ identity
def ident(E, st, c):
    return c.args[0]


for n in (
    "core::pin::Pin::new_unchecked core::pin::Pin::new core::pin::Pin::as_mut core::pin::Pin::get_mut "
    "core::pin::Pin::get_unchecked_mut core::pin::Pin::into_inner core::pin::Pin::as_ref core::pin::Pin::get_ref "
    "alloc::boxed::Box::new alloc::boxed::Box::pin alloc::boxed::Box::leak alloc::boxed::Box::into_pin "
    "core::future::into_future::IntoFuture::into_future core::hint::must_use core::hint::black_box "
    "alloc::boxed::box_assume_init_into_vec_unsafe alloc::fmt::format core::option::Option::as_deref "
    "core::option::Option::as_deref_mut core::mem::manually_drop::ManuallyDrop::new core::convert::identity "
    "lock_api::mutex::Mutex::new lock_api::rwlock::RwLock::new std::sync::poison::mutex::Mutex::new "
    "core::cell::RefCell::new core::cell::Cell::new tokio::sync::mutex::Mutex::new alloc::slice::into_vec "
    "slice::into_vec slice::as_ref alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice alloc::boxed::Box::from_raw "
    "alloc::string::String::as_str alloc::string::String::as_mut_str str::as_ref arfx_models::leak "
    "core::future::ready::ready core::iter::traits::iterator::Iterator::by_ref alloc::string::String::into_boxed_str "
    "core::str::as_str tracing::instrument::Instrument::instrument core::iter::traits::iterator::Iterator::peekable "
    "core::iter::traits::iterator::Iterator::fuse lock_api::mutex::Mutex::into_inner "
    "core::mem::maybe_uninit::MaybeUninit::assume_init alloc::boxed::Box::assume_init"
).split():
    TABLE[n] = ident


@nat("core::future::ready::ready")
def _(E, st, c):
    return mk("a", "ready:", 0, (c.args[0],))


LISTS = ("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<", "alloc::boxed::Box<[")


@nat("core::convert::Into::into", "core::convert::From::from", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
     "core::borrow::Borrow::borrow", "core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def _(E, st, c):
    if E.P.bodies.get(c.id) is not None:
        return None
    dt = c.destty["s"] if c.destty else ""
    at = tyof(c, 0)["s"]
    v = c.args[0]
    if "as_ref" in c.name or "as_mut" in c.name or "borrow" in c.name:
        return v
    if "try_" in c.name:
        return Y(mk("pure", "try_into:" + dt, (E.deep(st, v),)))
    f = E.full(st, v)
    if dt.startswith("core::option::Option<") and not at.startswith("core::option::Option<"):
        return some(v)
    if f.k in ("s", "fmt"):
        return f
    if dt == at or (is_str_ty(strip({"s": dt})) and is_str_ty(strip({"s": at}))):
        return f if at.startswith("&") else v
    if dt.startswith(LISTS) and at.startswith(LISTS):
        return v
    if dt.startswith("alloc::rcs::arc::Arc") or dt.startswith("alloc::boxed::Box"):
        return v
    if dt.startswith("alloc::vec::Vec") and "[" in at or "HashMap" in dt and "[" in at:
        return E.full(st, v)
    if f.k == "y" and f.a[0].k == "pure" and f.a[0].a[0] == "into:" + dt:
        return f
    return Y(mk("pure", "into:" + dt, (E.deep(st, f),)))


@nat("std::path::PathBuf::push")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    E.write(st, root, path, Y(mk("pure", "join", (E.deep(st, v), E.deep(st, c.args[1])))))
    return UNIT


@nat("alloc::string::String::from", "str::to_owned", "alloc::borrow::ToOwned::to_owned", "alloc::string::String::as_bytes",
     "str::as_bytes", "std::path::Path::to_path_buf", "std::path::Path::new", "std::path::PathBuf::from", "slice::to_vec",
     "std::path::PathBuf::as_path", "alloc::string::String::into_bytes", "alloc::vec::Vec::into_boxed_slice",
     "core::option::Option::copied", "core::option::Option::cloned", "core::result::Result::cloned", "str::to_string",
     "alloc::borrow::Cow::into_owned", "std::ffi::os_str::OsStr::to_os_string")
def _(E, st, c):
    v = c.args[0]
    if c.name.endswith("ed") and c.name.startswith("core::option"):
        v = E.full(st, v) if v.k == "r" else v
        if v.k == "a" and v.a[1] == 1:
            return some(E.deref1(st, v.a[2][0]))
        return v
    return E.full(st, v)


@nat("alloc::string::ToString::to_string")
def _(E, st, c):
    v = E.full(st, c.args[0])
    ty = strip(tyof(c, 0))
    if v.k in ("s", "fmt") or is_str_ty(ty):
        return v
    return show_via_display(E, st, c, v, ty)


def show_via_display(E, st, c, v, ty):
    t = tyof(c, 0)
    while t["k"] in ("ref", "ptr") and t.get("a"):
        t = c.body.tys[t["a"][0]]
    n = v.a[0] if v.k == "a" else t.get("n")
    m = E.P.impls.get(("core::fmt::Display", n))
    b = E.P.bodies.get(m["fmt"]) if m and "fmt" in m else None
    if b is None or E.recursing(st, b) or n in E.rule.flat:
        return display(E, st, v, ty)
    return through(E, st, c, b)


_posts = {}


def mk_post(fn, key):
    """callables kept in a frame must compare equal across visits"""
    k = (fn.__code__, key)
    return _posts.setdefault(k, fn)


# ------------------------------------------------------------------ formatting
@nat("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
     "core::fmt::rt::Argument::new_upper_hex")
def _(E, st, c):
    kind = c.name.split("new_")[1]
    ty = ""
    if c.gargs:
        for g in c.gargs:
            s = c.body.tys[g]["s"]
            if not s.startswith("'"):
                ty = s
                t = c.body.tys[g]
    if kind == "display" and ty:
        while t["k"] in ("ref", "ptr") and t.get("a"):
            t = c.body.tys[t["a"][0]]
        v = E.full(st, c.args[0])
        n = v.a[0] if v.k == "a" else t.get("n") if t["k"] == "adt" else None
        m = E.P.impls.get(("core::fmt::Display", n))
        b = E.P.bodies.get(m["fmt"]) if m and "fmt" in m else None
        if b is not None and not b.exp and not E.recursing(st, b) and n not in E.rule.flat:
            return through(E, st, c, b)
    return display(E, st, c.args[0], ty, kind)


def through(E, st, c, b):
    """the text a Display of the workspace writes"""
    cell = E.heap(st, c, S(""))

    def post(E, st, f, r, cell=cell):
        return st.mem.get(("H", cell)) or S("")

    return E.enter(st, c, b, [c.args[0], mk("r", ("H", cell), ())], kind="post", post=(mk_post(post, cell),))


@nat("core::fmt::Arguments::new")
def _(E, st, c):
    t = E.full(st, c.args[0])
    a = E.full(st, c.args[1])
    if t.k == "v" and all(s[0] == "one" and s[1].k == "k" for s in t.a[0]):
        raw = bytes(s[1].a[0] for s in t.a[0])
    elif t.k == "b":
        raw = t.a[0]
        raw = bytes(raw) if not isinstance(raw, bytes) else raw
    else:
        return Y(mk("pure", "fmt_args", (E.deep(st, t), E.deep(st, a))))
    args = [s[1] for s in a.a[0]] if a.k == "v" and all(s[0] == "one" for s in a.a[0]) else None
    if args is None:
        return Y(mk("pure", "fmt_args", (E.deep(st, t), E.deep(st, a))))
    i = 0
    ai = 0
    ps = []
    while i < len(raw):
        n = raw[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            ps.append(S(raw[i:i + n].decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            ln = raw[i] | raw[i + 1] << 8
            i += 2
            ps.append(S(raw[i:i + ln].decode("utf8", "replace")))
            i += ln
        else:
            plain = n & 0x3F in (0, 8)
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                ai = raw[i] | raw[i + 1] << 8
                i += 2
            v = E.full(st, args[ai]) if ai < len(args) else Y(mk("wid", "fmtarg"))
            ps.append(v if plain else Y(mk("pure", "fmtopt", (v,))))
            ai += 1
    return strcat(ps)


@nat("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new_const")
def _(E, st, c):
    return E.full(st, c.args[0])


@nat("core::fmt::Formatter::write_str", "core::fmt::Formatter::write_fmt", "core::fmt::Write::write_str",
     "core::fmt::Write::write_fmt", "core::fmt::Formatter::pad", "alloc::string::String::push_str", "alloc::string::String::push")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    s = E.full(st, c.args[1])
    if s.k == "k":
        s = S(chr(s.a[0]))
    if v.k in ("s", "fmt") or "String" in tyof(c, 0)["s"]:
        if root is not None:
            E.write(st, root, path, strcat([v, s]))
    else:
        E.rule.on_fmt(E, st, s)
    if "push" in c.name:
        return UNIT
    return ok(UNIT)


@nat("core::fmt::Display::fmt")
def _(E, st, c):
    """a Display of another crate writes its text"""
    if c.id in E.P.bodies or len(c.args) != 2:
        return None
    s = display(E, st, c.args[0], tyof(c, 0)["s"])
    root, path, v = place(E, st, c.args[1])
    if v.k in ("s", "fmt"):
        if root is not None:
            E.write(st, root, path, strcat([v, s]))
    else:
        E.rule.on_fmt(E, st, s)
    return ok(UNIT)


ORD = "core::cmp::Ordering"


@nat("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp", "core::cmp::impls::cmp", "core::cmp::impls::partial_cmp")
def _(E, st, c):
    """integers only"""
    if strip(tyof(c, 0)) not in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"):
        return None
    a, b = (E.simp(st, E.full(st, x)) for x in c.args[:2])
    w = some if c.name.endswith("partial_cmp") else (lambda x: x)
    r = []
    for s, less in E.fork_bool(st, E.lt(st, a, b)):
        if less:
            r.append((s, w(mk("a", ORD, 0, ()))))
            continue
        for s2, more in E.fork_bool(s, E.lt(s, b, a)):
            r.append((s2, w(mk("a", ORD, 2 if more else 1, ()))))
    return out(E, c, r)


def ordering(f):
    def h(E, st, c):
        v = E.full(st, c.args[0])
        if v.k == "a" and v.a[0] == ORD:
            return f(v.a[1] - 1)
        return None

    return h


for _n, _f in (("is_lt", lambda d: d < 0), ("is_le", lambda d: d <= 0), ("is_gt", lambda d: d > 0), ("is_ge", lambda d: d >= 0), ("is_eq", lambda d: d == 0),
               ("is_ne", lambda d: d != 0)):
    TABLE["core::cmp::Ordering::" + _n] = ordering(lambda d, f=_f: TRUE if f(d) else FALSE)
TABLE["core::cmp::Ordering::reverse"] = ordering(lambda d: mk("a", ORD, 1 - d, ()))


@nat("core::ops::arith::Add::add", "core::ops::arith::AddAssign::add_assign")
def _(E, st, c):
    t = strip(tyof(c, 0))
    if not is_str_ty(t):
        return None
    if c.name.endswith("assign"):
        root, path, v = place(E, st, c.args[0])
        E.write(st, root, path, strcat([v, E.full(st, c.args[1])]))
        return UNIT
    return strcat([E.full(st, c.args[0]), E.full(st, c.args[1])])


@nat("slice::join", "slice::concat")
def _(E, st, c):
    v = E.full(st, c.args[0])
    if len(c.args) == 1 and c.destty["s"].startswith("alloc::vec::Vec"):
        segs = ()
        for s in v.a[0] if v.k == "v" else (None,):
            one = segs_of(E, st, E.full(st, s[1])) if s and s[0] == "one" else None
            if one is None:
                return Y(mk("pure", "concat", (E.deep(st, v),)))
            segs += tuple(one)
        return seq(segs)
    sep = E.full(st, c.args[1]) if len(c.args) > 1 else S("")
    if v.k == "v" and all(s[0] == "one" for s in v.a[0]):
        ps = []
        for i, s in enumerate(v.a[0]):
            if i:
                ps.append(sep)
            ps.append(E.full(st, s[1]))
        return strcat(ps, 80)
    return Y(mk("pure", "join", (E.deep(st, v), sep)))


@nat("str::is_empty", "alloc::string::String::is_empty")
def _(E, st, c):
    v = E.full(st, c.args[0])
    if v.k == "fmt" and any(p.k == "s" for p in v.a[0]):
        return FALSE
    return E.is_empty(st, v)


@nat("alloc::string::String::new", "alloc::string::String::with_capacity")
def _(E, st, c):
    return S("")


# ------------------------------------------------------------------ clone, eq, default
@nat("core::clone::Clone::clone", "core::clone::Clone::clone_from")
def _(E, st, c):
    if c.name.endswith("clone_from"):
        root, path, v = place(E, st, c.args[0])
        E.write(st, root, path, E.deref1(st, c.args[1]))
        return UNIT
    if ws(E, c):
        return None
    v = E.deref1(st, c.args[0])
    if v.k == "y" and c.destty is not None:
        v = E.concrete(st, v, c.destty)
    return v


def eq_fork(E, st, c, neg):
    a, b = c.args[0], c.args[1]
    r = E.eq(st, a, b)
    if r.k == "y" and r.a[0].k == "pure" and r.a[0].a[0] == "and":
        res = []
        cur = [st]
        for part in r.a[0].a[1]:
            nx = []
            for s in cur:
                for s2, t in E.fork_bool(s, part):
                    if t:
                        nx.append(s2)
                    else:
                        res.append((s2, TRUE if neg else FALSE))
            cur = nx
        res += [(s, FALSE if neg else TRUE) for s in cur]
        return out(E, c, res)
    return E.neg(st, r) if neg else r


@nat("core::cmp::PartialEq::eq", "core::cmp::impls::eq")
def _(E, st, c):
    if ws(E, c):
        return None
    return eq_fork(E, st, c, False)


@nat("core::cmp::PartialEq::ne")
def _(E, st, c):
    if ws(E, c):
        return None
    if c.fn.get("r") and c.fn["r"] in E.P.bodies:
        return None
    return eq_fork(E, st, c, True)


def cmp_nat(sw, ng):
    def h(E, st, c):
        if ws(E, c):
            return None
        if "log::Level" in tyof(c, 0)["s"]:
            return TRUE if E.rule.logging else FALSE
        a = E.simp(st, E.full(st, c.args[0]))
        b = E.simp(st, E.full(st, c.args[1]))
        if sw:
            a, b = b, a
        r = E.lt(st, a, b)
        return E.neg(st, r) if ng else r

    return h


TABLE["core::cmp::PartialOrd::lt"] = cmp_nat(False, False)
TABLE["core::cmp::PartialOrd::gt"] = cmp_nat(True, False)
TABLE["core::cmp::PartialOrd::ge"] = cmp_nat(False, True)
TABLE["core::cmp::PartialOrd::le"] = cmp_nat(True, True)


def default_of(E, st, ty):
    s = ty["s"]
    if s.startswith("core::option::Option"):
        return NONE
    if s.startswith("alloc::vec::Vec"):
        return mk("v", ())
    if s.startswith(("std::collections::hash::", "alloc::collections::btree::")):
        return hmap(None, ())
    if s in ("alloc::string::String", "&str", "&'static str"):
        return S("")
    if s == "bool":
        return FALSE
    if s in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        return K(0)
    if s == "()":
        return UNIT
    return None


@nat("core::default::Default::default", "arfx_models::std_default")
def _(E, st, c):
    if c.id in E.P.bodies and c.id != "arfx_models::std_default":
        return None
    t = c.destty
    v = default_of(E, st, t)
    if v is not None:
        return v
    if t["k"] == "adt" and t["n"] == "alloc::rcs::arc::Arc" and t.get("a"):
        inner = c.body.tys[t["a"][0]]
        v = default_of(E, st, inner)
        if v is None and inner.get("n") == "lock_api::mutex::Mutex":
            v = default_of(E, st, c.body.tys[inner["a"][-1]])
        if v is not None:
            return mk("arc", E.heap(st, c, v))
    if t["k"] == "adt" and t["n"].endswith("::Mutex") and t.get("a"):
        v = default_of(E, st, c.body.tys[t["a"][-1]])
        if v is not None:
            return v
    if t["k"] == "adt":
        m = E.P.impls.get(("core::default::Default", t["n"]))
        if m and "default" in m:
            b = E.P.bodies.get(m["default"])
            if b is not None and not E.recursing(st, b):
                return E.enter(st, c, b, [])
    return Y(mk("pure", "default:" + t["s"], ()))


@nat("alloc::rcs::arc::Arc::new", "alloc::rc::Rc::new", "alloc::sync::Arc::new")
def _(E, st, c):
    return mk("arc", E.heap(st, c, c.args[0]))


@nat("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(E, st, c):
    if ws(E, c):
        return None
    a = c.args[0]
    v = E.deref1(st, a)
    if v.k in ("arc", "guard", "r"):
        return v
    return a


@nat("core::any::Any::downcast_ref", "core::any::Any::type_id")
def _(E, st, c):
    return None


# ------------------------------------------------------------------ locks, mem
@nat("lock_api::mutex::Mutex::lock", "lock_api::rwlock::RwLock::read", "lock_api::rwlock::RwLock::write",
     "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut")
def _(E, st, c):
    return E.lock(st, c, c.args[0])


@nat("std::sync::poison::mutex::Mutex::lock", "std::sync::mutex::Mutex::lock", "std::sync::poison::rwlock::RwLock::read",
     "std::sync::poison::rwlock::RwLock::write")
def _(E, st, c):
    return ok(E.lock(st, c, c.args[0]))


@nat("core::mem::drop", "core::mem::forget")
def _(E, st, c):
    if c.name.endswith("drop"):
        E.drop_value(st, c.args[0])
    return UNIT


@nat("core::mem::take", "core::option::Option::take")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if root is None:
        return v
    if c.name.endswith("Option::take"):
        d = NONE
    else:
        t = c.destty
        d = default_of(E, st, t)
        if d is None:
            d = Y(mk("pure", "default:" + t["s"], ()))
    E.rule.on_write(E, st, root, path, d, c.line)
    E.write(st, root, path, d)
    return v


@nat("core::mem::replace", "core::option::Option::replace")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if root is None:
        return None
    n = c.args[1]
    if c.name.endswith("Option::replace"):
        n = some(n)
    E.rule.on_write(E, st, root, path, n, c.line)
    E.write(st, root, path, n)
    return v


@nat("core::mem::swap")
def _(E, st, c):
    r1, p1, v1 = place(E, st, c.args[0])
    r2, p2, v2 = place(E, st, c.args[1])
    if r1 is None or r2 is None:
        return None
    E.write(st, r1, p1, v2)
    E.write(st, r2, p2, v1)
    return UNIT


def place(E, st, v):
    """(root, path, content) the reference v designates"""
    n = 0
    root = path = None
    while True:
        k = v.k
        if k == "r":
            root, path = v.a[0], v.a[1]
        elif k == "arc":
            root, path = ("H", v.a[0]), ()
        elif k == "guard":
            root, path = v.a[0], v.a[1]
        elif k == "y" and n == 0:
            root, path = E.unwind(v.a[0])
            return root, path, E.read(st, root, path)
        else:
            return root, path, v
        v = E.read(st, root, path)
        n += 1
        if n > 20:
            return root, path, v


# ------------------------------------------------------------------ Option / Result
def variants(E, st, v, ty):
    """fork an Option/Result: [(state, is_some_or_ok, payload)]"""
    isopt = ty.startswith(OPT)
    v = E.full(st, v)
    r = []
    for s, i in E.fork_variant(st, v, 2):
        if isopt:
            if i == 1:
                r.append((s, True, E.payload(v, 1, 0, "Some")))
            else:
                r.append((s, False, None))
        else:
            if i == 0:
                r.append((s, True, E.payload(v, 0, 0, "Ok")))
            else:
                r.append((s, False, E.payload(v, 1, 0, "Err")))
    return r


@nat("core::ops::try_trait::Try::branch")
def _(E, st, c):
    t = tyof(c, 0)["s"]
    v = c.args[0]
    isopt = t.startswith(OPT) or (v.k == "a" and v.a[0] == OPT)
    res = []
    for s, good, p in variants(E, st, v, OPT if isopt else RES):
        if good:
            res.append((s, mk("a", CF, 0, (p,))))
        else:
            res.append((s, mk("a", CF, 1, (NONE if isopt else err(p),))))
    return out(E, c, res)


@nat("core::ops::try_trait::FromResidual::from_residual")
def _(E, st, c):
    v = c.args[0]
    if v.k == "a" and v.a[0] == OPT:
        return v
    if v.k == "a" and v.a[0] == RES:
        e = v.a[2][0]
        at, dt = tyof(c, 0), c.destty
        if at.get("a") and dt and dt.get("a") and c.body.tys[at["a"][-1]]["s"] == c.body.tys[dt["a"][-1]]["s"]:
            return v
        return err(Y(mk("pure", "err_from", (E.deep(st, e),))))
    return v


@nat("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap",
     "core::result::Result::expect", "core::option::Option::unwrap_unchecked")
def _(E, st, c):
    res = []
    for s, good, p in variants(E, st, c.args[0], c.name):
        if good:
            res.append((s, p))
        else:
            E.unwrapped = E.deep(s, c.args[0])
            E.panic(s, c.name.split("::")[-2] + "::" + c.name.split("::")[-1], c.line)
            E.unwrapped = None
    return out(E, c, res)


@nat("core::result::Result::unwrap_err", "core::result::Result::expect_err")
def _(E, st, c):
    res = []
    for s, good, p in variants(E, st, c.args[0], RES):
        if not good:
            res.append((s, p))
        else:
            E.panic(s, "Result::unwrap_err", c.line)
    return out(E, c, res)


@nat("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def _(E, st, c):
    res = []
    for s, good, p in variants(E, st, c.args[0], c.name):
        if good:
            res.append((s, p))
        else:
            d = default_of(E, s, c.destty)
            res.append((s, d if d is not None else Y(mk("pure", "default:" + c.destty["s"], ()))))
    return out(E, c, res)


def isvar(want, nm):
    def h(E, st, c):
        v = E.full(st, c.args[0])
        if v.k == "a":
            return K(1 if v.a[1] == want else 0)
        l = E.discr_label(v)
        if l is None:
            return None
        E.nvar.setdefault(l, 2)
        b = E.simp(st, Y(l))
        return b if want == 1 else E.neg(st, b)

    return h


TABLE["core::option::Option::is_some"] = isvar(1, OPT)
TABLE["core::option::Option::is_none"] = isvar(0, OPT)
TABLE["core::result::Result::is_ok"] = isvar(0, RES)
TABLE["core::result::Result::is_err"] = isvar(1, RES)


@nat("core::option::Option::as_ref", "core::result::Result::as_ref")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if v.k in ("y", "o"):
        return v
    if v.k == "a":
        if not v.a[2]:
            return v
        vn = {(OPT, 1): "Some", (RES, 0): "Ok", (RES, 1): "Err"}.get((v.a[0], v.a[1]), "Some")
        if root is None or root[0] == "P":
            return v
        x = v.a[2][0]
        if x.k in ("r", "arc", "s", "k"):
            return v
        return mk("a", v.a[0], v.a[1], (mk("r", root, path + (("f", 0, vn + ".0"),)),))
    return None


@nat("core::intrinsics::discriminant_value", "core::mem::discriminant")
def _(E, st, c):
    t = tyof(c, 0)
    while t["k"] in ("ref", "ptr") and t.get("a"):
        t = c.body.tys[t["a"][0]]
    return E.discr(st, E.full(st, c.args[0]), t)


# ------------------------------------------------------------------ sequences
def conc(x):
    return x.k == "v"


def segs_of(E, st, v):
    """segments of a sequence value, None when it is not one"""
    v = E.full(st, v)
    if v.k == "v":
        return v.a[0]
    if v.k in ("y", "o"):
        return (("all", v.a[0]),)
    return None


@nat("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "arfx_models::seq_new", "alloc::collections::vec_deque::VecDeque::new")
def _(E, st, c):
    return mk("v", ())


@nat("alloc::vec::Vec::push", "arfx_models::seq_push", "alloc::collections::vec_deque::VecDeque::push_back")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if root is None:
        return None
    sg = segs_of(E, st, v)
    if sg is None:
        sg = (("all", mk("wid", "seq")),)
    r = E.rule.on_push(E, st, root, path, v, c.args[1], c)
    nv = seq(sg + (seg_of(r, c.args[1]),))
    E.write(st, root, path, nv)
    return UNIT


def seg_of(r, x):
    """what a rule puts into a sequence instead of x: a value, a segment, or nothing special"""
    if type(r) is V:
        return ("one", r)
    if type(r) is tuple:
        return r
    return ("one", x)


@nat("alloc::vec::Vec::insert", "alloc::collections::vec_deque::VecDeque::push_front")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    sg = segs_of(E, st, v)
    if root is None or sg is None:
        return None
    i = K(0) if "push_front" in c.name else E.simp(st, E.full(st, c.args[1]))
    x = c.args[-1]
    r = E.rule.on_insert(E, st, root, path, v, x, c)
    if i.k == "k" and all(s[0] == "one" for s in sg[: i.a[0]]) and i.a[0] <= len(sg):
        nv = seq(sg[: i.a[0]] + (seg_of(r, x),) + sg[i.a[0]:])
    else:
        nv = Y(mk("pure", "inserted", (v, i, x)))
    E.write(st, root, path, nv)
    return UNIT


@nat("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_back")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if v.k == "v" and root is not None:
        sg = v.a[0]
        if not sg:
            return NONE
        if sg[-1][0] == "one":
            E.write(st, root, path, mk("v", sg[:-1]))
            return some(sg[-1][1])
    return None


@nat("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    i = E.simp(st, E.full(st, c.args[1]))
    if v.k == "v" and root is not None and i.k == "k":
        sg = v.a[0]
        n = i.a[0]
        if n < len(sg) and all(s[0] == "one" for s in sg[: n + 1]) and "swap" not in c.name:
            E.write(st, root, path, mk("v", sg[:n] + sg[n + 1:]))
            return sg[n][1]
    if root is not None:
        E.write(st, root, path, Y(mk("pure", "removed", (E.deep(st, v), i))))
        if v.k == "y":
            return Y(mk("idx", v.a[0], i))
    return None


@nat("alloc::vec::Vec::clear", "std::collections::hash::map::HashMap::clear", "alloc::string::String::clear",
     "std::collections::hash::set::HashSet::clear")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if root is None:
        return None
    E.write(st, root, path, mk("v", ()) if "vec" in c.name else (S("") if "string" in c.name else hmap(None, ())))
    return UNIT


@nat("alloc::vec::Vec::len", "slice::len", "std::collections::hash::map::HashMap::len", "alloc::string::String::len", "str::len",
     "std::collections::hash::set::HashSet::len", "alloc::collections::vec_deque::VecDeque::len")
def _(E, st, c):
    return E.length(st, E.full(st, c.args[0]))


@nat("alloc::vec::Vec::is_empty", "slice::is_empty", "std::collections::hash::map::HashMap::is_empty",
     "std::collections::hash::set::HashSet::is_empty", "alloc::collections::vec_deque::VecDeque::is_empty")
def _(E, st, c):
    return E.is_empty(st, E.full(st, c.args[0]))


@nat("slice::contains", "alloc::collections::vec_deque::VecDeque::contains")
def _(E, st, c):
    v = E.full(st, c.args[0])
    x = E.full(st, c.args[1])
    if v.k == "v":
        res = []
        cur = [st]
        rest = False
        for s in v.a[0]:
            if s[0] == "one":
                nx = []
                for s1 in cur:
                    for s2, t in E.fork_bool(s1, E.eq(s1, x, s[1])):
                        if t:
                            res.append((s2, TRUE))
                        else:
                            nx.append(s2)
                cur = nx
            else:
                rest = True
        if not rest:
            res += [(s, FALSE) for s in cur]
            return out(E, c, res)
        for s1 in cur:
            res.append((s1, E.simp(s1, Y(mk("pure", "contains", (E.deep(s1, v), E.deep(s1, x)))))))
        return out(E, c, res)
    return E.simp(st, Y(mk("pure", "contains", (E.deep(st, v), E.deep(st, x)))))


@nat("slice::first", "slice::last", "slice::get", "alloc::collections::vec_deque::VecDeque::front", "alloc::vec::Vec::first")
def _(E, st, c):
    v = E.full(st, c.args[0])
    meth = c.name.split("::")[-1]
    if v.k == "v":
        sg = v.a[0]
        if not sg and meth != "get":
            return NONE
        if meth in ("first", "front") and sg[0][0] == "one":
            return some(sg[0][1])
        if meth == "last" and sg[-1][0] == "one":
            return some(sg[-1][1])
        if meth == "get":
            i = E.simp(st, E.full(st, c.args[1]))
            if i.k == "k" and all(s[0] == "one" for s in sg):
                return some(sg[i.a[0]][1]) if i.a[0] < len(sg) else NONE
    if meth == "get" and v.k == "y":
        i = E.simp(st, E.full(st, c.args[1]))
        if i.k in ("k", "y"):
            return out(E, c, [(s, some(E.proj(s, v, ("i", i))) if t else NONE)
                              for s, t in E.fork_bool(st, E.lt(st, i, E.length(st, v)))])
    if meth in ("first", "last", "front") and v.k in ("v", "y"):
        l = mk("pure", meth, tuple(E.deep(st, a) for a in c.args))
        return out(E, c, [(s, NONE if t else some(Y(fld(l, 0, "Some.0")))) for s, t in E.fork_bool(st, E.is_empty(st, v)) if E.assume(s, mk("discr", l), 0 if t else 1)])
    return Y(mk("pure", meth, tuple(E.deep(st, a) for a in c.args)))


@nat("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key", "slice::reverse", "alloc::vec::Vec::dedup",
     "slice::sort_unstable_by", "slice::sort_unstable_by_key", "alloc::vec::Vec::truncate")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    if root is None:
        return None
    meth = c.name.split("::")[-1]
    if v.k == "v" and (not v.a[0] or len(v.a[0]) == 1 and v.a[0][0][0] == "one"):
        return UNIT
    if meth == "reverse" and v.k == "v" and whole(v.a[0]):
        E.write(st, root, path, mk("v", backwards(v.a[0])))
        return UNIT
    if meth == "sort_unstable":
        meth = "sort"
    E.write(st, root, path, Y(mk("pure", meth, (E.deep(st, v),))))
    return UNIT


@nat("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(E, st, c):
    if ws(E, c):
        return None
    t = strip(tyof(c, 0))
    if "HashMap" in t or "BTreeMap" in t:
        res = []
        for s, found, val, key in lookup(E, st, c.args[0], c.args[1]):
            if found is True:
                res.append((s, val))
            elif found is None:
                for s2, good, p in variants(E, s, val, OPT):
                    if good:
                        res.append((s2, p))
                    else:
                        E.panic(s2, "map index", c.line)
            else:
                E.panic(s, "map index", c.line)
        return out(E, c, res)
    root, path, v = place(E, st, c.args[0])
    i = E.simp(st, E.full(st, c.args[1]))
    if i.k == "a":
        if "RangeFull" in i.a[0]:
            return c.args[0]
        E.rule.on_index(E, st, c, v, i)
        return Y(mk("pure", "slice", (E.deep(st, v), i)))
    E.rule.on_index(E, st, c, v, i)
    if root is None:
        return Y(mk("pure", "index", (v, i)))
    return mk("r", root, path + (("i", i),))


# ------------------------------------------------------------------ iterators
def mkit(E, c, segs, mode="x"):
    return mk("it", tuple(segs), E.chain(c.chain, c.site), mode)


ITADT = ("arfx_models::Map arfx_models::Filter arfx_models::FilterMap arfx_models::TakeWhile arfx_models::SkipWhile "
         "arfx_models::Inspect arfx_models::Enumerate arfx_models::Chain arfx_models::Zip arfx_models::FlatMap "
         "arfx_models::Flatten core::ops::range::Range").split()


def to_iter(E, st, c, v, mode="x"):
    ref = None
    n = 0
    while v.k in ("r", "arc", "guard") and n < 20:
        if v.k == "r":
            ref = v
        w = E.deref1(st, v)
        if w is v:
            break
        if w.k == "it" or (w.k == "a" and w.a[0] in ITADT):
            return v  # &mut iterator
        v = w
        n += 1
    v = E.full(st, v) if v.k == "y" else v
    if v.k == "it":
        return v
    if v.k == "v":
        if mode == "mut" and ref is not None and all(s[0] == "one" for s in v.a[0]):
            return mkit(E, c, [("one", mk("r", ref.a[0], ref.a[1] + (("i", K(i)),))) for i in range(len(v.a[0]))])
        return mkit(E, c, v.a[0], "x" if mode == "mut" else mode)
    if v.k == "hm":
        sg = []
        for k, x in v.a[1]:
            if x is TOMB:
                continue
            if mode == "mut" or mode == "vmut":
                if ref is not None:
                    x = mk("r", ref.a[0], ref.a[1] + (("me", k),))
            sg.append(("one", T(k, x)))
        if v.a[0] is not None:
            sg.append(("all", v.a[0]))
        return mkit(E, c, sg, {"vmut": "v", "mut": "x"}.get(mode, mode))
    if v.k == "a":
        if v.a[0] in ITADT:
            return v
        if v.a[0] == OPT:
            return mkit(E, c, [("one", v.a[2][0])] if v.a[1] == 1 else [])
    if v.k in ("y", "o"):
        return mkit(E, c, [("all", v.a[0])], {"vmut": "v", "mut": "x"}.get(mode, mode))
    return mkit(E, c, [("all", mk("wid", "iter"))])


def it_nat(mode):
    def h(E, st, c):
        if c.id in E.P.bodies and not c.id.startswith("arfx_models"):
            return None
        if c.name == "core::iter::traits::collect::IntoIterator::into_iter":
            t = tyof(c, 0)["s"]
            m = mode
            if t.startswith("&") and " mut " in t[:12] or t.startswith("&mut "):
                m = "mut"
            if t.startswith(OPT):
                res = []
                for s, good, p in variants(E, st, c.args[0], OPT):
                    res.append((s, mkit(E, c, [("one", p)] if good else [])))
                return out(E, c, res)
            return to_iter(E, st, c, c.args[0], m)
        return to_iter(E, st, c, c.args[0], mode)

    return h


for n in ("core::iter::traits::collect::IntoIterator::into_iter slice::iter alloc::vec::Vec::iter "
          "std::collections::hash::map::HashMap::iter alloc::collections::btree::map::BTreeMap::iter "
          "std::collections::hash::map::HashMap::into_iter std::collections::hash::map::HashMap::drain "
          "arfx_models::into_iter_any arfx_models::into_iter_conv std::collections::hash::set::HashSet::iter "
          "alloc::vec::Vec::drain core::option::Option::iter std::collections::hash::set::HashSet::into_iter "
          "core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::cloned "
          "alloc::collections::vec_deque::VecDeque::iter").split():
    TABLE[n] = it_nat("x")
for n in ("std::collections::hash::map::HashMap::values std::collections::hash::map::HashMap::into_values "
          "alloc::collections::btree::map::BTreeMap::values").split():
    TABLE[n] = it_nat("v")
for n in ("std::collections::hash::map::HashMap::keys std::collections::hash::map::HashMap::into_keys "
          "alloc::collections::btree::map::BTreeMap::keys").split():
    TABLE[n] = it_nat("k")
TABLE["std::collections::hash::map::HashMap::values_mut"] = it_nat("vmut")
TABLE["std::collections::hash::map::HashMap::iter_mut"] = it_nat("mut")
TABLE["slice::iter_mut"] = it_nat("mut")


@nat("alloc::vec::Vec::drain", "std::collections::hash::map::HashMap::drain")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    r = to_iter(E, st, c, c.args[0])
    if root is not None:
        E.write(st, root, path, mk("v", ()) if "Vec" in c.name else hmap(None, ()))
    return r


@nat("core::option::Option::iter")
def _(E, st, c):
    return out(E, c, [(s, mkit(E, c, [("one", p)] if g else [])) for s, g, p in variants(E, st, c.args[0], OPT)])


@nat("core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied")
def _(E, st, c):
    v = c.args[0]
    if v.k == "it":
        def m(sg):
            return tuple(("one", E.deref1(st, s[1])) if s[0] == "one" else ((s[0], m(s[1])) if s[0] in ("rep", "alt") else s) for s in sg)
        return mk("it", m(v.a[0]), v.a[1], v.a[2])
    return v


def whole(segs):
    """no part of the sequence stands for an unknown list"""
    return all(s[0] == "one" or s[0] in ("rep", "alt") and whole(s[1]) for s in segs)


def backwards(segs):
    return tuple(s if s[0] == "one" else (s[0], backwards(s[1])) for s in reversed(segs))


def derived_iter(nm):
    def h(E, st, c):
        v = to_iter(E, st, c, c.args[0])
        w = E.full(st, v) if v.k == "r" else v
        if nm == "rev" and w.k == "it" and whole(w.a[0]):
            return mk("it", backwards(w.a[0]), w.a[1], w.a[2])
        if nm == "rev" and w.k == "a" and w.a[0] == "core::ops::range::Range":
            a, b = [E.simp(st, x) for x in w.a[2]]
            if a.k == "k" and b.k == "k" and b.a[0] - a.a[0] < 32:
                return mkit(E, c, [("one", K(i)) for i in range(b.a[0] - 1, a.a[0] - 1, -1)])
        key = E.deep(st, w)
        return mkit(E, c, [("all", mk("pure", "iter_" + nm, (key,) + tuple(E.deep(st, x) for x in c.args[1:])))],
                    "x")

    return h


for n in ("rev", "skip", "take", "step_by", "cycle", "scan", "map_while"):
    TABLE["core::iter::traits::iterator::Iterator::" + n] = derived_iter(n)


@nat("core::iter::sources::once::once", "core::iter::once")
def _(E, st, c):
    return mkit(E, c, [("one", c.args[0])])


@nat("core::iter::sources::empty::empty", "core::iter::empty")
def _(E, st, c):
    return mkit(E, c, [])


@nat("core::ops::range::RangeInclusive::new")
def _(E, st, c):
    a, b = [E.simp(st, E.full(st, x)) for x in c.args]
    if a.k == "k" and b.k == "k" and b.a[0] - a.a[0] < 32:
        return mkit(E, c, [("one", K(i)) for i in range(a.a[0], b.a[0] + 1)])
    return None


@nat("core::iter::traits::iterator::Iterator::try_for_each", "core::iter::traits::iterator::Iterator::try_fold")
def _(E, st, c):
    d = c.destty["s"]
    k = "res" if d.startswith(RES) else "opt" if d.startswith(OPT) else "cf" if d.startswith("core::ops::control_flow::ControlFlow") else None
    if k is None:
        return None
    return E.enter(st, c, E.P.bodies["arfx_models::iter_%s_%s" % (c.name.rsplit("::", 1)[1], k)], c.args)


@nat("core::iter::traits::iterator::Iterator::nth")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    n = E.simp(st, E.full(st, c.args[1]))
    if n.k == "k":
        return E.enter(st, c, E.P.bodies["arfx_models::iter_nth"], c.args)
    if v.k == "it" and v.a[2] == "x" and len(v.a[0]) == 1 and v.a[0][0][0] == "all" and n.k == "y":
        L = v.a[0][0][1]
        E.write(st, root, path, mk("it", (("all", mk("pure", "iter_skip", (v, n))),), v.a[1], "x"))
        return out(E, c, [(s, some(Y(mk("idx", L, n))) if t else NONE) for s, t in E.fork_bool(st, E.lt(st, n, E.length(st, Y(L))))])
    return None


def pick(E, v, mode):
    if mode == "x" or type(mode) is tuple:
        return v
    i = 0 if mode == "k" else 1
    if v.k == "t":
        return v.a[0][i]
    if v.k == "y":
        return Y(fld(v.a[0], i, str(i)))
    return Y(mk("wid", "pair"))


@nat("core::iter::traits::iterator::Iterator::next", "arfx_models::It::next")
def it_next(E, st, c):
    if c.id in E.P.bodies and not c.id.startswith("arfx_models"):
        return None
    root, path, v = place(E, st, c.args[0])
    if v.k == "a" and v.a[0].startswith("arfx_models::"):
        m = E.P.impls.get(("arfx_models::It", v.a[0]))
        b = E.P.bodies[m["next"]]
        ref = mk("r", root, path)
        return E.enter(st, c, b, [ref])
    if v.k == "a" and v.a[0] == "core::ops::range::Range":
        a = E.simp(st, E.full(st, v.a[2][0]))
        b = E.simp(st, E.full(st, v.a[2][1]))
        if a.k == "k" and b.k == "k":
            if a.a[0] >= b.a[0]:
                return NONE
            E.write(st, root, path, mk("a", v.a[0], 0, (K(a.a[0] + 1), b)))
            return some(a)
        v = numbers(mk("pure", "range", (a, b)), E.chain(c.chain, c.site))
    if v.k in ("y", "o"):
        v = mkit(E, c, [("all", v.a[0])])
    if v.k == "v" or v.k == "hm":
        v = to_iter(E, st, c, v)
    if v.k != "it":
        return None
    if root is None:
        return None
    return out(E, c, draws(E, st, c, root, path, v))


def numbers(L, site):
    """iterator over the numbers of a range: of 0..s.len() for a known sequence s, over its positions"""
    a, b = L.a[1]
    segs = (("all", L),)
    if a is K(0) and b.k == "y" and b.a[0].k == "pure" and b.a[0].a[0] == "len":
        s = b.a[0].a[1][0]
        segs = s.a[0] if s.k == "v" else (("all", s.a[0]),) if s.k == "y" else segs
    return mk("it", segs, site, ("n", L))


def draws(E, st, c, root, path, v):
    """what `next` of the sequence iterator v (stored at root, path) gives: [(state, option)]"""
    res = draw(E, st, c, root, path, v)
    site, mode = v.a[1:]
    if type(mode) is tuple and not (len(v.a[0]) == 1 and v.a[0][0][1] is mode[1]):
        L = mode[1]
        r2 = []
        for s, x in res:
            if x is not NONE:
                E.write(s, ("N",), (), x.a[2][0])
                e = E.fresh(s, c, "call", "index")
                E.rule.on_count(E, s, c, e)
                s.mem.pop(("X", mk("old", e)), None)
                s.mem["X", e] = mk("t", (L.a[1][1].a[0].a[1][0], s.mem.pop(("N",))))
                E.write(s, root, path, mk("it", E.read(s, root, path).a[0], site, ("n", L, e)))
                x = some(Y(e))
            r2.append((s, x))
        return r2
    return res


def draw(E, st, c, root, path, v):
    segs, site, mode = v.a
    res = []
    work = [(st, segs)]
    met = set()
    while work:
        s, sg = work.pop()
        if sg and sg[0][0] == "rep":
            k = (sg, frozenset(s.facts.items()), s.auto)
            if k in met:
                continue
            met.add(k)
        if not sg:
            E.write(s, root, path, mk("it", (), site, mode))
            res.append((s, NONE))
            continue
        h = sg[0]
        if h[0] == "one":
            E.write(s, root, path, mk("it", sg[1:], site, mode))
            res.append((s, some(pick(E, h[1], mode))))
        elif h[0] == "rep":
            s2 = s.copy()
            work.append((s2, sg[1:]))
            work.append((s, h[1] + sg))
        elif h[0] == "alt":
            work.append((s.copy(), sg[1:]))
            for x in h[1]:
                work.append((s.copy(), (x,) + sg))
        else:
            L = h[1]
            wit = E.rule.witness(E, s, L)
            w = mk("wit", L)
            nowit = mk("pure", "empty", (Y(L),))
            size = mk("pure", "len", (Y(L),))
            # exhausted
            s2 = s.copy()
            good = True
            if h[0] == "all" and wit:
                good = E.assume(s2, nowit, 1) and not E.excluded(s2, size, 0)
            if good and E.rule.on_iter(E, s2, c, L, None):
                if E.rule.coarse and mk("el", L, site) in s2.gen:
                    # the last element is from now on one of the earlier ones
                    E.regen(s2, mk("el", L, site))
                work.append((s2, sg[1:]))
            # the witness element
            if h[0] == "all" and wit:
                s4 = s.copy()
                if E.assume(s4, nowit, 0) and E.fact(s4, size) != 0:
                    E.write(s4, root, path, mk("it", (("allw", L),) + sg[1:], site, mode))
                    rep = E.rule.on_iter(E, s4, c, L, w)
                    if rep:
                        res.append((s4, some(pick(E, Y(rep if type(rep) is V else w), mode))))
            # some other element
            if wit == "only":
                continue
            s3 = s
            if wit and (not E.assume(s3, nowit, 0) or E.fact(s3, size) == 0):
                continue
            e = mk("el", L, site)
            E.write(s3, root, path, mk("it", sg, site, mode))
            E.regen(s3, e, c)
            rep = E.rule.on_iter(E, s3, c, L, e)
            if rep:
                res.append((s3, some(pick(E, Y(rep if type(rep) is V else e), mode))))
    return res


@nat("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(E, st, c):
    d = c.destty["s"]
    v = c.args[0]
    if "from_iter" in c.name:
        v = to_iter(E, st, c, v)
    if v.k == "it" and d.startswith("alloc::vec::Vec") and v.a[2] == "x":
        sg = v.a[0]
        if len(sg) == 1 and sg[0][0] == "all":
            return Y(sg[0][1])
        return mk("v", sg)
    if v.k == "y" and d.startswith("alloc::vec::Vec"):
        return v
    if d.startswith("alloc::vec::Vec") or d.startswith("alloc::collections::vec_deque") or d.startswith("alloc::boxed::Box<["):
        m = "collect_seq"
    elif d.startswith(("std::collections::hash::map", "alloc::collections::btree::map")):
        m = "collect_hm"
    elif d.startswith(("std::collections::hash::set", "alloc::collections::btree::set")):
        m = "collect_hset"
    elif d.startswith(RES + "<alloc::vec::Vec"):
        m = "collect_result_seq"
    elif d.startswith(RES + "<std::collections::hash::map"):
        m = "collect_result_hm"
    elif d.startswith(OPT + "<alloc::vec::Vec"):
        m = "collect_option_seq"
    else:
        return Y(mk("pure", "collect:" + d, (E.deep(st, v),)))
    return E.enter(st, c, E.P.bodies["arfx_models::" + m], [v])


@nat("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append")
def _(E, st, c):
    if ws(E, c):
        return None
    root, path, v = place(E, st, c.args[0])
    if root is None:
        return None
    t = strip(tyof(c, 0))
    if "HashMap" in t or "BTreeMap" in t:
        return E.enter(st, c, E.P.bodies["arfx_models::hm_extend"], c.args)
    if tyof(c, 1)["s"].startswith(OPT):
        res = []
        for s, good, p in variants(E, st, c.args[1], OPT):
            if good and not grow(E, s, c, (("one", p),)):
                return E.enter(st, c, E.P.bodies["arfx_models::seq_extend"], [c.args[0], to_iter(E, st, c, c.args[1])])
            res.append((s, UNIT))
        return out(E, c, res)
    src = to_iter(E, st, c, c.args[1])
    w = E.full(st, src) if src.k == "r" else src
    if w.k == "it" and w.a[2] == "x" and grow(E, st, c, w.a[0]):
        if c.name.endswith("append"):
            r2, p2, _ = place(E, st, c.args[1])
            E.write(st, r2, p2, mk("v", ()))
        return UNIT
    return E.enter(st, c, E.P.bodies["arfx_models::seq_extend"], [c.args[0], src])


def grow(E, st, c, more):
    """append segments to the sequence behind the first argument, one after the other"""
    root, path, v = place(E, st, c.args[0])
    sg = segs_of(E, st, v)
    if sg is None:
        return False
    for s in more:
        if s[0] == "one":
            s = seg_of(E.rule.on_push(E, st, root, path, v, s[1], c), s[1])
        v = seq(v_segs(v, sg) + (s,))
        sg = v.a[0]
    E.write(st, root, path, v if more else seq(sg))
    return True


def v_segs(v, sg):
    return v.a[0] if v.k == "v" else sg


@nat("arfx_models::iter_index")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    l = E.fresh(st, c, "call", "index")
    E.rule.on_count(E, st, c, l)
    return Y(l)


@nat("arfx_models::opaque_bool")
def _(E, st, c):
    return Y(E.fresh(st, c, "call", "opaque"))


@nat("arfx_models::le_key")
def _(E, st, c):
    a = E.simp(st, E.full(st, c.args[0]))
    b = E.simp(st, E.full(st, c.args[1]))
    return E.neg(st, E.lt(st, b, a))


@nat("arfx_models::seq_take", "arfx_models::hm_take")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    r = to_iter(E, st, c, v)
    E.write(st, root, path, mk("v", ()) if "seq" in c.name else hmap(None, ()))
    return r


@nat("arfx_models::seq_restore", "arfx_models::hm_restore")
def _(E, st, c):
    root, path, v = place(E, st, c.args[0])
    E.write(st, root, path, c.args[1])
    return UNIT


@nat("arfx_models::key_copy")
def _(E, st, c):
    return E.deref1(st, c.args[0])


# ------------------------------------------------------------------ maps
def mapparts(v):
    if v.k == "hm":
        return v.a[0], v.a[1]
    if v.k in ("y", "o"):
        return v.a[0], ()
    return mk("wid", "map"), ()


def lookup(E, st, mref, kref):
    """[(state, True|False|None, value | option label, key in map)]"""
    root, path, v = place(E, st, mref)
    key = E.deep(st, kref)
    return [r for r in lookup_(E, st, v, key) if E.rule.on_lookup(E, r[0], None, root, path, key, r[1])]


def lookup_(E, st, v, key):
    base, ents = mapparts(v)
    res = []
    cur = [st]
    for ek, ev in reversed(ents):
        nx = []
        for s in cur:
            for s2, t in E.fork_bool(s, E.eq(s, key, ek)):
                if t:
                    if ev is TOMB:
                        res.append((s2, False, None, ek))
                    else:
                        res.append((s2, True, ev, ek))
                else:
                    nx.append(s2)
        cur = nx
    for s in cur:
        if base is None:
            res.append((s, False, None, None))
        else:
            l = mk("pure", "get", (Y(base), key))
            E.nvar.setdefault(mk("discr", l), 2)
            d = E.fact(s, mk("discr", l))
            if d == 0:
                res.append((s, False, None, None))
            elif d == 1:
                res.append((s, True, Y(fld(l, 0, "Some.0")), key))
            else:
                res.append((s, None, Y(l), key))
    return res


HM = ("std::collections::hash::map::HashMap::", "alloc::collections::btree::map::BTreeMap::")
HS = ("std::collections::hash::set::HashSet::", "alloc::collections::btree::set::BTreeSet::")


def hmn(*ms):
    return [p + m for p in HM for m in ms]


def hsn(*ms):
    return [p + m for p in HS for m in ms]


@nat("arfx_models::hm_new", *hmn("new", "with_capacity"), *hsn("new", "with_capacity"))
def _(E, st, c):
    return hmap(None, ())


@nat(*hmn("get", "get_key_value"), *hsn("get"))
def _(E, st, c):
    res = []
    for s, f, v, k in lookup(E, st, c.args[0], c.args[1]):
        res.append((s, some(v) if f is True else (NONE if f is False else v)))
    return out(E, c, res)


@nat(*hmn("contains_key"), *hsn("contains"))
def _(E, st, c):
    res = []
    for s, f, v, k in lookup(E, st, c.args[0], c.args[1]):
        res.append((s, TRUE if f is True else (FALSE if f is False else Y(mk("discr", v.a[0])))))
    return out(E, c, res)


@nat("arfx_models::hm_get_mut", *hmn("get_mut"))
def _(E, st, c):
    root, path, mv = place(E, st, c.args[0])
    res = []
    for s, f, v, k in lookup(E, st, c.args[0], c.args[1]):
        if f is None:
            for s2, good, p in variants(E, s, v, OPT):
                res.append((s2, some(mk("r", root, path + (("me", k),))) if good else NONE))
        elif f:
            res.append((s, some(mk("r", root, path + (("me", k),)))))
        else:
            res.append((s, NONE))
    return out(E, c, res)


def put(E, st, root, path, key, val):
    mv = E.read(st, root, path)
    base, ents = mapparts(mv)
    ents = [e for e in ents if e[0] is not key] + [(key, val)]
    # entries left over from earlier iterations of the same site carry no more information
    E.write(st, root, path, hmap(base, tuple(ents)))


@nat("arfx_models::hm_insert", "arfx_models::hm_ins", *hmn("insert"), *hsn("insert"))
def _(E, st, c):
    root, path, mv = place(E, st, c.args[0])
    if root is None:
        return None
    key = E.deep(st, c.args[1])
    isset = c.name in hsn("insert")
    val = UNIT if isset else c.args[2]
    rv = E.rule.on_map_insert(E, st, c, root, path, mv, key, val)
    if type(rv) is V:
        val = rv
    if c.name == "arfx_models::hm_insert":
        put(E, st, root, path, key, val)
        return UNIT
    res = []
    for s, f, v, k in lookup(E, st, c.args[0], key):
        put(E, s, root, path, k if f is True else key, val)
        if isset:
            res.append((s, FALSE if f is True else (TRUE if f is False else E.neg(s, Y(mk("discr", v.a[0]))))))
        else:
            res.append((s, some(v) if f is True else (NONE if f is False else v)))
    return out(E, c, res)


@nat(*hmn("entry"))
def _(E, st, c):
    """the entry of a key: occupied or vacant, around the map and the key"""
    res = []
    bt = "btree" in c.name
    e = mk("a", "arfx_models::Entry", 0, (c.args[0], c.args[1]))
    n = "alloc::collections::btree::map::entry::Entry" if bt else "std::collections::hash::map::Entry"
    for s, f, v, k in lookup(E, st, c.args[0], c.args[1]):
        for s2, good in [(s, f)] if f is not None else [(s2, g) for s2, g, _ in variants(E, s, v, OPT)]:
            res.append((s2, mk("a", n, int(bool(good) == bt), (e,))))
    return out(E, c, res)


def entry_nat(m):
    def h(E, st, c):
        v = E.full(st, c.args[0])
        if v.k == "a" and v.a[0].endswith("::Entry") and not v.a[0].startswith("arfx"):
            v = v.a[2][0]
        if m == "entry_or_default" and c.destty:
            d = default_of(E, st, {"s": strip(c.destty), "k": ""})
            if d is not None:
                return E.enter(st, c, E.P.bodies["arfx_models::entry_or_insert"], [v, d])
        return E.enter(st, c, E.P.bodies["arfx_models::" + m], [v] + list(c.args[1:]))
    return h


for _p in ("std::collections::hash::map::Entry::", "alloc::collections::btree::map::entry::Entry::"):
    for _n in ("or_insert", "or_insert_with", "and_modify", "or_default", "key"):
        TABLE[_p + _n] = entry_nat("entry_" + _n)


@nat("arfx_models::hm_del", *hmn("remove", "remove_entry"), *hsn("remove"))
def _(E, st, c):
    root, path, mv = place(E, st, c.args[0])
    if root is None:
        return None
    key = E.deep(st, c.args[1])
    E.rule.on_map_remove(E, st, c, root, path, mv, key)
    res = []
    isset = c.name in hsn("remove")
    for s, f, v, k in lookup(E, st, c.args[0], key):
        cur = E.read(s, root, path)
        base, ents = mapparts(cur)
        k2 = k if f is True else key
        ents = [e for e in ents if e[0] is not k2]
        if base is not None:
            ents.append((k2, TOMB))
        E.write(s, root, path, hmap(base, tuple(ents)))
        if isset:
            res.append((s, TRUE if f is True else (FALSE if f is False else Y(mk("discr", v.a[0])))))
        else:
            res.append((s, some(v) if f is True else (NONE if f is False else v)))
    return out(E, c, res)


# ------------------------------------------------------------------ functions, futures, tasks
@nat("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _(E, st, c):
    a = E.full(st, c.args[1]) if c.args[1].k == "r" else c.args[1]
    args = list(a.a[0]) if a.k == "t" else [a]
    return E.invoke(st, c, c.args[0], args)


@nat("core::future::get_context")
def _(E, st, c):
    return Y(mk("const", "context"))


@nat("core::future::future::Future::poll")
def _(E, st, c):
    return E.poll(st, c)


@nat("core::future::poll_fn::poll_fn", "std::future::poll_fn")
def _(E, st, c):
    return mk("a", "core::future::poll_fn::PollFn", 0, (c.args[0],))


@nat("tokio::macros::support::thread_rng_n")
def _(E, st, c):
    n = E.full(st, c.args[0])
    k = n.a[0] if n.k == "k" else 2
    return out(E, c, [(st.copy(), K(i)) for i in range(k)])


@nat("tonic::request::Request::new", "tonic::response::Response::new")
def _(E, st, c):
    return mk("a", "tonic::Message", 0, (c.args[0],))


@nat("tonic::request::Request::into_inner", "tonic::response::Response::into_inner")
def _(E, st, c):
    return E.proj(st, E.full(st, c.args[0]), ("f", 0, "inner"))


@nat("tokio::macros::support::poll_budget_available")
def _(E, st, c):
    return ready(UNIT)


@nat("tokio::task::spawn::spawn", "tokio::spawn", "tokio::runtime::handle::Handle::spawn", "std::thread::spawn",
     "tokio::task::join_set::JoinSet::spawn")
def _(E, st, c):
    fut = c.args[-1]
    how = E.rule.on_spawn(E, st, c, fut)
    l = E.fresh(st, c, "call", "spawn")
    if how == "skip" or fut.k != "cor":
        return Y(l)
    b = E.P.bodies[fut.a[0]]
    args = [mk("t", fut.a[1]), Y(mk("const", "context"))]
    if how == "fork":
        s2 = st.copy()
        s2.fr = []
        E.push(s2, b, args, None, -1, "root", ("task",), site=("task", b.id))
        return E.fin(st, c, Y(l)) + [s2]

    def post(E, st, f, v, l=l):
        E.rule.on_task_end(E, st, v)
        return Y(l)

    st.fr[-1].bb = c.target
    E.push(st, b, args, c.dest, c.target, "post", (mk_post(post, l),), site=c.site)
    E.rule.on_enter(E, st, b, c)
    return [st]


@nat("alloc::boxed::Box::new_uninit")
def _(E, st, c):
    return mk("uninit")


@nat("core::panicking::panic_fmt")
def _(E, st, c):
    E.panic(st, "panic", c.line)
    return []


# functions of their arguments only: two calls with the same arguments give the same label
PURE_PREFIX = (
    "str::", "core::str::", "alloc::string::String::", "std::path::", "core::time::", "core::num::", "glob::", "humantime::",
    "chrono::time_delta::", "chrono::datetime::", "core::ops::arith::", "core::ops::bit::", "std::process::ExitStatus::", "slice::", "char::", "http::",
    "alloc::string::String::from_utf8", "i32::", "u32::", "u64::", "i64::", "usize::", "core::cmp::", "url::", "semver::",
    "core::any::type_name", "once_cell::", "std::ffi::",
)


def pure(E, st, c):
    if c.name is None or not c.name.startswith(PURE_PREFIX):
        return None
    if c.argtys:
        for ty in c.argtys:
            t = c.body.tys[ty]
            if t["k"] == "ref" and "mut " in t["s"][:16]:
                return None
    nm = c.name.split("::")[-1]
    # closures as arguments are not compared
    if any(a.k in ("clo",) for a in c.args):
        return None
    args = tuple(E.deep(st, a) for a in c.args)
    if nm in ("starts_with", "ends_with") and all(a.k == "s" for a in args):
        return K(1 if getattr(args[0].a[0], nm.replace("_", ""))(args[1].a[0]) else 0)
    if nm == "parse" and c.destty:
        nm = "parse:" + c.destty["s"]
    r = Y(mk("pure", nm, args))
    if r.d > 18:
        return None
    return E.simp(st, r)


NOHAVOC = {
    "core::future::future::Future::poll", "core::task::wake::Waker::wake_by_ref", "core::fmt::Formatter::write_str",
    "tokio::sync::mpsc::bounded::Receiver::recv", "tokio::sync::broadcast::Receiver::recv",
}

MODELS = {}
_o = ("map inspect map_or map_or_else and_then and or or_else unwrap_or unwrap_or_else ok_or ok_or_else filter is_some_and "
      "is_none_or take_if unzip xor zip transpose flatten as_mut get_or_insert_with get_or_insert insert").split()
for _n in _o:
    MODELS["core::option::Option::" + _n] = "option_" + _n
for _n in ("map map_err inspect inspect_err map_or map_or_else and_then and or or_else unwrap_or unwrap_or_else ok err is_ok_and "
           "is_err_and transpose flatten").split():
    MODELS["core::result::Result::" + _n] = "result_" + _n
for _n in "is_subset is_superset is_disjoint".split():
    MODELS["std::collections::hash::set::HashSet::" + _n] = "set_" + _n
MODELS["bool::then"] = "bool_then"
MODELS["bool::then_some"] = "bool_then_some"
MODELS["core::bool::then"] = "bool_then"
for _n in ("map filter filter_map take_while skip_while inspect enumerate chain zip flat_map flatten find find_map any all for_each "
           "fold count last position partition min_by_key max_by_key min_by max_by reduce unzip").split():
    MODELS["core::iter::traits::iterator::Iterator::" + _n] = "iter_" + _n
MODELS["alloc::vec::Vec::retain"] = "vec_retain"
for _p in HM:
    MODELS[_p + "retain"] = "hm_retain"
for _p in ("std::collections::hash::map::", "alloc::collections::btree::map::entry::"):
    for _n, _m in (("OccupiedEntry::get", "occ_get"), ("OccupiedEntry::get_mut", "occ_get"), ("OccupiedEntry::into_mut", "occ_into_mut"),
                   ("OccupiedEntry::insert", "occ_insert"), ("OccupiedEntry::remove", "occ_remove"), ("OccupiedEntry::key", "entry_key"),
                   ("VacantEntry::key", "entry_key"), ("VacantEntry::insert", "vac_insert")):
        MODELS[_p + _n] = _m
MODELS["std::sync::once_lock::OnceLock::get_or_init"] = "once_get_or_init"


def ctor(E, v, args):
    """tuple struct / variant constructors used as function values"""
    n = v.a[1].removesuffix("::{constructor#0}")
    if n == "core::option::Option::Some":
        return some(args[0])
    if n == "core::result::Result::Ok":
        return ok(args[0])
    if n == "core::result::Result::Err":
        return err(args[0])
    ad = E.P.adts.get(n)
    if ad and ad["kind"] == "struct":
        return mk("a", n, 0, tuple(args))
    p, _, last = n.rpartition("::")
    ad = E.P.adts.get(p)
    if ad and ad["kind"] == "enum":
        for i, x in enumerate(ad["variants"]):
            if x["name"] == last:
                return mk("a", p, i, tuple(args))
    return None
