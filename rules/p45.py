"""P45: no answer of a hook or runner makes a run panic."""
from . import wf

RULE = ("Path-sensitive dataflow over Workflow::run, Job::run and ExecutionContext::run (spawned tasks inline) with every hook, plugin, runner and stream answering anything: no path reaches a panic - an unwrap of a value that may be absent, "
        "an index that may be out of bounds, an overflow, an explicit panic. The serialization of the run's payload is exempt.")
ASSUME = list(wf.ASSUME) + ["a run's payload can be serialized", "a step is run within its job, whose signal is registered under the job id in the step's own id (P11, P17)", "a stream that ended has a result (P10)"]


def run(P, R):
    for w in ("workflow", "job", "step"):
        r = wf.run_level(P, R, w, {"P45"})
        if r is None:
            return
        R.ob("level")
    R.floor(None, "level", 3)
