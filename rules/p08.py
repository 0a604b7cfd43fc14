"""P08: a job's signal reaches the runner of the step that is running."""
from . import wf

RULE = "Typestate of ExecutionContext::run: the signal of the step's own job is polled in every wait, each kind it yields is forwarded with the same kind to the signal handed to the runner before anything else is awaited, and nothing else sets that signal."
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['step'], {'job-signal': 1, 'forwarded:cancel': 1, 'wait': 1})
