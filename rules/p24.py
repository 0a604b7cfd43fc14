"""P24: the scheduler of a remote client learns of every start and completion."""
from . import remote

RULE = ("Exact summaries (events on every path) of every Runner hook of the remote client: on each path of a start or completion hook exactly that hook of the client's own scheduler is called, once, "
        "with the event's source or result; no other hook calls the scheduler.")

ASSUME = remote.ASSUME


def run(P, R):
    remote.client_hooks(P, R, "scheduler")
    for h in ("on_run_workflow", "on_run_job", "on_run_step", "on_step_completed", "on_job_completed", "on_workflow_completed"):
        R.floor(None, "told:" + h, 1)
