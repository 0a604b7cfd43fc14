"""P39: the steps of a job share one directory, which goes with the workflow and not before."""
from . import runner

RULE = ("Exact path values (abstract interpretation over MIR) of every directory the executors and the end of a workflow create, mount, run in or remove, with the event the runner keeps per workflow: "
        "the job's data directory, the step's own directory and the workflow's directory under the runner's directory and the repository of the event.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.execute(P, R, {"P39"})
    runner.run_step(P, R, {"P39"})
    runner.cleanup(P, R)
    for n in ("job-dir", "own-removed", "event-kept", "removed:repository", "removed:plain", "workflow-end",):
        R.floor(None, n, 1)
