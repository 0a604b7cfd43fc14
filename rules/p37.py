"""P37: the process or container of a cancelled or timed out step is killed."""
from . import runner

RULE = ("Typestate of Command::run (the process is tied to the command's future), of both executors (the future is owned by the step, not by a task of its own) and of the docker executor after a signal: "
        "a kill of the very name the container was started with is issued and awaited.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.process(P, R, {"P37"}, ("run",))
    runner.execute(P, R, {"P37"})
    for n in ("killed-with-step", "container-killed",):
        R.floor(None, n, 1)
