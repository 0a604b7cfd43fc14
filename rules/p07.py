"""P07: a step that runs longer than its timeout has its signal set to timeout."""
from . import wf

RULE = "Typestate of ExecutionContext::run: one timer with the step's timeout, started before the wait loop and never restarted; whenever the step waits the timer is polled or has fired; when it fires the runner's signal is set to timeout before anything else is awaited."
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['step'], {'timer': 1, 'forwarded:timeout': 1, 'wait': 1})
