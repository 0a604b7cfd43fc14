"""P47: nothing a run does blocks a thread of the runtime."""
from . import locks

RULE = ("Effect summaries over the call graph of all MIR: from the body of an async function or block, or a poll function, no path through calls, closures and resolved trait methods reaches an operation that stops the thread - sleeping or parking it, joining a thread, a blocking "
        "receive, send or lock, waiting for a process, a condition variable or a barrier, running a future to its end - unless a closure given to spawn_blocking, block_in_place or a thread of its own does it.")
ASSUME = ["calls on the file system return soon", "a lock that is not held across an await or a foreign call (P46) is soon free", "what a runner, plugin or scheduler of the user does is theirs"]


def run(P, R):
    L = locks.Locks(P)
    acq, usr, blk = L.effects()
    for i, b in sorted(L.bodies.items()):
        last = b.n.rsplit("::", 1)[-1]
        if not (b.coroutine or last in ("poll", "poll_next", "poll_ready", "poll_flush", "poll_close", "start_send")):
            continue
        R.ob("async body")
        for w, p in sorted(blk[i].items()):
            R.violation("block:%s:%s" % (w, b.n), "%s stops the thread that runs %s" % (w, b.n), "%s:%s" % (b.file, b.line), list(p))
    for i, evs in L.calls.items():
        for k, held, d, line in evs:
            if k in ("call", "block", "offload"):
                R.ob({"call": "call", "block": "blocking call", "offload": "offloaded closure"}[k])
    R.note("functions_analysed", len(L.bodies))
    R.floor(None, "async body", 80)
    R.floor(None, "call", 400)
