"""P22: the default scheduler picks a runner that can run the step."""
from . import sched

RULE, ASSUME = sched.RULE, sched.ASSUME


def run(P, R):
    r = sched.schedule(P, R, {"P22"})
    if r is not None:
        for n, k in {"none": 4, "eligible:docker": 4, "eligible:host": 2, "affinity": 2}.items():
            R.floor(r, n, k)
