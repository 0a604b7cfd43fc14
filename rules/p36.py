"""P36: a step ends with its command, or at once when it is signalled."""
from . import runner

RULE = ("Typestate of both executors (every interleaving of the command's end and each signal, every failing file operation) and of AstroRunner::run with its task: the command is awaited only together with the step's signal, "
        "a signalled step ends as cancelled or timed out even if it was signalled before it started, the step's stream is returned at once and is always ended.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.execute(P, R, {"P36"})
    runner.run_step(P, R, {"P36"})
    for n in ("Cancel:before", "Cancel:during", "Timeout:before", "Timeout:during", "wait", "run", "exit", "executed", "task-done", "returned", "ended-for-executor",):
        R.floor(None, n, 1)
