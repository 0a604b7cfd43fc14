"""P29: a signal of a step run remotely reaches the signal its remote runner holds, and only that."""
from . import remote

RULE = ("Typestate of the client's run (a received signal is sent, with its kind and the step's id, to the runner of the step before anything else is done; the select waits for it on every iteration) "
        "and of the server's run (the signal is registered under the step's id before the runner starts), and the exact effects of the server's send_event on the registered signals.")

ASSUME = remote.ASSUME


def run(P, R):
    r = remote.client_run(P, R, {"P29"})
    if r:
        for n in ("signal-sent", "wait"):
            R.floor(r, n, 1)
    r = remote.server_run(P, R, {"P29"})
    if r:
        for n in ("registered", "answered"):
            R.floor(r, n, 1)
    remote.dispatch(P, R, "signal")
    for n in ("signal-set:cancel", "signal-set:timeout", "signal-unknown", "signal-removed"):
        R.floor(None, n, 1)
