"""P25: each event is sent to the remote runners with its content, and dispatched there to the plugins and the runner."""
from . import remote

RULE = ("Exact summaries of every Runner hook of the remote client (one message of the variant whose payload has the event's type, carrying the event, on every path) and of the server's "
        "send_event (for every variant of the message: the plugins' and then the runner's hook for that type, awaited, with the payload, whatever they return).")

ASSUME = remote.ASSUME


def run(P, R):
    remote.client_hooks(P, R, "event")
    remote.dispatch(P, R, "event")
    for h in remote.hooks(P):
        R.floor(None, "sent:" + h, 1)
    for v in ("RunStep", "RunJob", "RunWorkflow", "StepCompleted", "JobCompleted", "WorkflowCompleted", "StepLog", "StateChange"):
        R.floor(None, "dispatched:" + v, 1)
