"""P27: the stream of a step run remotely is that of the remote runner, and always ends."""
from . import remote

RULE = ("Typestate of Runner::run of the remote client with the task it spawns, and of run of the server with the task it spawns: scheduling over all connected runners, one run request with the step's "
        "own context, every response handled exactly once and unchanged before the next one is awaited, a failure only after something failed, and the stream ended on every path.")

ASSUME = remote.ASSUME


def run(P, R):
    r = remote.client_run(P, R, {"P27"})
    if r:
        for n in ("offered", "run", "log-passed-on:log", "log-passed-on:error", "result-passed-on", "failed:no runner was picked", "failed:the runner could not be asked", "failed:the connection broke",
                  "failed:the responses ended without a result", "wait"):
            R.floor(r, n, 1)
    r = remote.server_run(P, R, {"P27"})
    if r:
        for n in ("run", "log-sent", "result-sent", "run-failed"):
            R.floor(r, n, 1)
