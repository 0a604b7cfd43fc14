"""Guards: what runs while one is held, and what may stop a thread of the runtime (forward may-dataflow over MIR, summaries over the call graph)."""
from ar.prog import succs

GUARDS = ("lock_api::mutex::MutexGuard", "lock_api::mutex::MappedMutexGuard", "lock_api::rwlock::RwLockReadGuard", "lock_api::rwlock::RwLockWriteGuard",
          "lock_api::rwlock::RwLockUpgradableReadGuard", "lock_api::rwlock::MappedRwLockReadGuard", "lock_api::rwlock::MappedRwLockWriteGuard",
          "lock_api::remutex::ReentrantMutexGuard", "lock_api::mutex::ArcMutexGuard",
          "std::sync::poison::mutex::MutexGuard", "std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard",
          "std::sync::mutex::MutexGuard", "std::sync::rwlock::RwLockReadGuard", "std::sync::rwlock::RwLockWriteGuard",
          "core::cell::Ref", "core::cell::RefMut",
          "tokio::sync::mutex::MutexGuard", "tokio::sync::mutex::OwnedMutexGuard", "tokio::sync::rwlock::read_guard::RwLockReadGuard",
          "tokio::sync::rwlock::write_guard::RwLockWriteGuard", "tokio::sync::rwlock::owned_read_guard::OwnedRwLockReadGuard",
          "tokio::sync::rwlock::owned_write_guard::OwnedRwLockWriteGuard")
READ = ("RwLockReadGuard", "cell::Ref")
CALLS = ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
POLL = ("core::future::future::Future::poll", "futures_core::stream::Stream::poll_next")
BLOCK = ("std::thread::sleep", "std::thread::yield_now", "core::hint::spin_loop", "std::thread::functions::sleep", "std::thread::functions::yield_now", "std::thread::functions::park", "std::thread::functions::park_timeout", "std::thread::park", "std::thread::park_timeout", "std::thread::join_handle::JoinHandle::join", "std::thread::JoinHandle::join",
         "std::thread::scope", "std::sync::mpsc::Receiver::recv", "std::sync::mpsc::Receiver::recv_timeout", "std::sync::mpsc::SyncSender::send",
         "std::process::Command::output", "std::process::Command::status", "std::process::Child::wait", "std::process::Child::wait_with_output",
         "tokio::runtime::runtime::Runtime::block_on", "tokio::runtime::handle::Handle::block_on", "futures_executor::local_pool::block_on",
         "std::io::stdio::Stdin::read_line", "std::io::stdio::stdin", "std::io::Read::read_to_string", "std::io::Read::read_to_end")
BLOCKM = ("::Condvar::wait", "::Condvar::wait_timeout", "::Condvar::wait_for", "::Condvar::wait_until", "::Barrier::wait", "::blocking_recv", "::blocking_send", "::blocking_lock",
          "::blocking_read", "::blocking_write", "::LocalSet::block_on", "::Condvar::wait_while", "::Condvar::wait_timeout_while")
OFFLOAD = ("tokio::task::blocking::spawn_blocking", "std::thread::spawn", "tokio::runtime::handle::Handle::spawn_blocking", "std::thread::functions::spawn",
           "std::thread::builder::Builder::spawn", "tokio::runtime::runtime::Runtime::spawn_blocking", "tokio::task::blocking::block_in_place", "std::thread::Builder::spawn")


class Locks:
    def __init__(self, P):
        self.P = P
        self.traits = {t for t in P.traits if t.split("::")[0] in ("astro_run", "astro_runner", "astro_run_remote_runner", "astro_run_scheduler", "astro_run_protocol")}
        self.bodies = {i: b for i, b in P.bodies.items() if b.crate != "arfx_models" and not b.ispr}
        self.memo = {}
        self.calls = {}
        self.given = {}  # function -> the callables its call sites give it
        for b in self.bodies.values():
            for bl in b.blocks:
                if bl and bl["t"][0] == "call" and bl["t"][1][0] == "k" and "fn" in bl["t"][1][1]:
                    fn = bl["t"][1][1]["fn"]
                    to = fn.get("r") or fn["id"]
                    if to in self.bodies:
                        for g in fn.get("g") or ():
                            if g >= 0:
                                ty = b.tys[g]
                                self.given.setdefault(to, set()).add((ty["k"], ty.get("d")) if ty["k"] in ("closure", "fndef") else ("dyn" if "dyn " in ty["s"] else ty["k"], None))
        for i, b in self.bodies.items():
            self.calls[i] = self.scan(b)

    # ---- types
    def guard(self, b, ti, n=0):
        """classes of the guards a value of this type owns"""
        key = (id(b.tys), ti)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        t = b.tys[ti]
        r = set()
        if t["k"] == "adt" and t["n"] in GUARDS:
            prot = [b.tys[a]["s"] for a in t.get("a", ()) if a >= 0]
            r.add((prot[-1] if prot else "?", "read" if t["n"].endswith(READ) else "write", t["n"].startswith("tokio::")))
        elif t["k"] == "adt" and t["n"].endswith("::Poll"):
            pass  # a lock is held once it is ready
        elif t["k"] in ("adt", "tuple", "array") and n < 6:
            if not (t["k"] == "adt" and t["n"].endswith(("::PhantomData", "::Weak", "ManuallyDrop"))):
                for a in t.get("a", ()):
                    if type(a) is int and a >= 0:
                        r |= self.guard(b, a, n + 1)
        self.memo[key] = frozenset(r)
        return self.memo[key]

    # ---- one body
    def scan(self, b):
        """[(kind, held, detail, line)] of a body: kind in call/yield/acquire/user"""
        own = {i: self.guard(b, l[0]) for i, l in enumerate(b.locals)}
        own = {i: g for i, g in own.items() if g}
        out = []
        if not own and b.coroutine is False:
            pass
        start = frozenset(i for i in own if 1 <= i <= b.argc)
        inn = {0: start}
        work = [0]
        evs = {}
        while work:
            n = work.pop()
            bl = b.blocks[n]
            if not bl:
                continue
            h = set(inn[n])
            ev = []

            def use(op):
                if op and op[0] == "m" and not op[1][1]:
                    h.discard(op[1][0])

            def ops(x):
                if type(x) is list:
                    if len(x) == 2 and x[0] == "m" and type(x[1]) is list:
                        use(x)
                        return
                    for y in x:
                        ops(y)

            for s in bl["s"]:
                if s[0] == "=":
                    ops(s[2])
                    src = s[2][1] if s[2][0] == "use" and s[2][1][0] in ("m", "c") else None
                    if s[1][0] in own and src and src[1][1] and b.tys[b.locals[src[1][0]][0]].get("n", "").endswith("::Poll"):
                        for g in own[s[1][0]]:
                            ev.append(("ready", frozenset(x for i in h for x in own[i]), (g, True), s[3] if len(s) > 3 else b.line, None))
                    if s[1][0] in own and s[2][0] in ("use", "agg", "cast"):
                        h.add(s[1][0])
                elif s[0] == "dead":
                    h.discard(s[1])
            t = bl["t"]
            if t[0] == "drop":
                if not t[1][1]:
                    h.discard(t[1][0])
            elif t[0] == "call":
                for a in t[2]:
                    use(a)
                held = frozenset(g for i in h for g in own[i])
                ev.append(("call", held, t[1], t[5], t))
                if t[3][0] in own:
                    h.add(t[3][0])
            elif t[0] == "yield":
                ev.append(("yield", frozenset(g for i in h for g in own[i]), None, t[3], t))
            evs[n] = ev
            for s in succs(t):
                nw = frozenset(h) | inn.get(s, frozenset())
                if s not in inn or nw != inn[s]:
                    inn[s] = nw
                    work.append(s)
        for n in sorted(evs):
            for k, held, f, line, t in evs[n]:
                if k == "yield":
                    out.append(("yield", held, "", line))
                    continue
                if k == "ready":
                    out.append(("acquire", held, f, line))
                    continue
                out += self.classify(b, held, f, line, t, own)
        return out

    def classify(self, b, held, f, line, t, own):
        r = []
        fn = f[1].get("fn") if f[0] == "k" else None
        if fn is None:
            return [("user", held, "a function value", line)]
        n, tr, to = fn["n"], fn.get("trait") or "", fn.get("r")
        last = n.rsplit("::", 1)[-1]
        name = fn.get("rn") or n
        if t[3][0] in own and not t[3][1]:
            # a guard comes into being: acquired here, unless it only passes through
            given = any(a[0] in ("m", "c") and not a[1][1] and a[1][0] in own for a in t[2])
            if not given and to not in self.bodies:
                blocking = "try_" not in last
                for g in own[t[3][0]]:
                    r.append(("acquire", held, (g, blocking), line))
        if n in POLL[:1] and to in self.bodies:
            r.append(("poll", held, to, line))
        elif n in CALLS:
            if to in self.bodies:
                r.append(("call", held, to, line))
            else:
                known = self.known(b, fn)
                r += [("call", held, d, line) for d in known] if known else [("user", held, "a callback", line)]
        elif n in POLL and to is None:
            r.append(("user", held, last + " of a foreign value", line))
        elif tr in self.traits and to is None:
            r.append(("user", held, tr.rsplit("::", 1)[1] + "::" + last, line))
        elif to in self.bodies:
            r.append(("call", held, to, line))
        if name in BLOCK or n in BLOCK or name.endswith(BLOCKM) or n.endswith(BLOCKM):
            r.append(("block", held, name, line))
        off = name in OFFLOAD or n in OFFLOAD
        for g in fn.get("g") or ():
            if g >= 0:
                ty = b.tys[g]
                if ty["k"] in ("closure", "fndef") and ty["d"] in self.bodies:
                    r.append(("offload" if off else "call", held, ty["d"], line))
        return r

    def known(self, b, fn):
        """the closures a parameter of a private function can be: those its callers, all of them ours, give it"""
        g = (fn.get("g") or [-1])[0]
        if g < 0:
            return None
        t = b.tys[g]
        while t["k"] == "ref":
            t = b.tys[t["a"][0]]
        if t["k"] != "param" or b.pub or b.trait:
            return None
        own = self.given.get(b.id, ())
        if any(k in ("param", "dyn", "alias", "other") or k in ("closure", "fndef") and d not in self.bodies for k, d in own):
            return None
        return sorted({d for k, d in own if k in ("closure", "fndef")})

    # ---- the program
    def effects(self):
        """per body: {class acquired: chain}, user calls {what: chain}, blocking {what: chain}, all without following awaits"""
        acq = {i: {} for i in self.bodies}
        usr = {i: {} for i in self.bodies}
        blk = {i: {} for i in self.bodies}
        change = True
        while change:
            change = False
            for i, evs in self.calls.items():
                for k, held, d, line in evs:
                    at = "%s:%s" % (self.bodies[i].file, line)
                    add = []
                    if k == "acquire":
                        add = [(acq, d[0], (at,))] if d[1] else []
                    elif k == "user":
                        add = [(usr, d, (at,))]
                    elif k == "block":
                        add = [(blk, d, (at,))]
                    elif k == "poll" or k == "call" and d in self.bodies and not self.bodies[d].coroutine:
                        for m in (acq, usr) if k == "poll" else (acq, usr, blk):
                            for x, p in m[d].items():
                                add.append((m, x, (at,) + p))
                    for m, x, p in add:
                        if x not in m[i] and len(p) < 40:
                            m[i][x] = p
                            change = True
        return acq, usr, blk


def short(c):
    return c[0].split("<")[0].split("::")[-1] if "<" not in c[0] else c[0]
