"""P30: before-run hooks are chained over all remote runners."""
from . import remote

RULE = ("Typestate of on_before_run_step of the client (each runner once, in turn, awaited, with the command the previous one gave; a failure fails the hook) and exact summary of the server's "
        "call_before_run_step_hook (plugins, then runner, on the step sent; the answer is what the runner gave), field by field through the conversions between step and command.")

ASSUME = remote.ASSUME


def run(P, R):
    remote.before(P, R)
    for n in ("server-hook", "server-hook-failed"):
        R.floor(None, n, 1)
