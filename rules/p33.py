"""P33: a step on the host runs its own command with its variables in its job's directory."""
from . import runner

RULE = ("Typestate of HostExecutor::execute up to the start of the command (the command handed over is the step's text, every variable once, the job's directory, created before), of Command::run and Command::exec "
        "(the process started is sh -c with exactly that text, directory and variables), with one arbitrary variable tracked as witness, and exact summaries of the text of each kind of variable.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.execute(P, R, {"P33"}, None, "Host")
    runner.execute(P, R, {"P33"}, "env", "Host")
    runner.process(P, R, {"P33"})
    runner.env_text(P, R)
    for n in ("host", "env-given", "no-env", "env", "process", "text:String", "text:Number", "text:Boolean",):
        R.floor(None, n, 1)
