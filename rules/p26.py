"""P26: the client forwards every event to every connected runner, and goes on doing so."""
from . import remote

RULE = ("Typestate of AstroRunRemoteRunnerClient::start: subscribed before the first connection attempt; each received event is sent, awaited, exactly once to each runner of the current collection "
        "before the next one is received; the only way out is the channel being closed - not a failed delivery, nor falling behind.")

ASSUME = remote.ASSUME


def run(P, R):
    r = remote.start(P, R, "loop")
    if r:
        for n in ("subscribed", "no-runner", "event-to-all", "ends-when-closed"):
            R.floor(r, n, 1)
