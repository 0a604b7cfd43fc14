"""P31: a runner server reports and uses what it was built with, and so does a client."""
from . import remote

RULE = ("Composition of exact summaries: builder(), every setter in two orders, build() and get_runner_metadata(); every field of the reported metadata, the runner, the plugins in order and the client's scheduler "
        "are compared with what was given; a server without id or runner is refused.")

ASSUME = remote.ASSUME


def run(P, R):
    if remote.version(P, R) is not None:
        remote.reported(P, R)
    for n, k in (("server-built", 2), ("reported", 14), ("server-refused", 2), ("client-built", 1)):
        R.floor(None, n, k)
