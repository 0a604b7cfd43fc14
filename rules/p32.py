"""P32: every line a step's process writes and its exit status are reported."""
from . import runner

RULE = ("Typestate of Command::run (abstract interpretation over MIR; both pipes, every outcome of each read, every exit status): what was read is reported by log (stdout) or error (stderr) before anything else "
        "is awaited, the command waits only while every unfinished pipe is being read, waits for the process only when both have ended, and ends the stream once with what the exit status means; and of Command::exec.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.process(P, R, {"P32"})
    for n in ("line:stdout", "line:stderr", "wait", "end:zero", "end:other", "end:none", "done", "failed", "exec:ok", "exec:err", "exec:failed"):
        R.floor(None, n, 1)
