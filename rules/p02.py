"""P02: the runner is handed exactly the step that came out of the before-run hooks."""
from . import wf

RULE = 'Typestate of ExecutionContext::run: every path is followed through the MIR; the Context passed to Runner::run is compared field by field with the step returned by the last before-run hook, and Runner::run is reached at most once.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['step'], {'runner-invoked': 1, 'command-field': 8})
