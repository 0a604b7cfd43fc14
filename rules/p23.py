"""P23: the default scheduler spreads steps by load, and keeps its books right."""
from . import sched

RULE, ASSUME = sched.RULE, sched.ASSUME


def run(P, R):
    r = sched.schedule(P, R, {"P23"})
    if r is not None:
        for n, k in {"no-effect": 4, "books": 4, "least-loaded": 2}.items():
            R.floor(r, n, k)
        sched.completions(P, R, r)
        R.floor(None, "load-given-back", 2)
        R.floor(None, "given-back:job", 1)
