"""P05: a step's result and logs are those of the runner's stream."""
from . import wf

RULE = 'Typestate of ExecutionContext::run: the stream must have ended before its result is read, each received log is forwarded once and unchanged before anything else is polled, and every variant of RunResult maps to the step state and exit code.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['step'], {'final:Succeeded': 1, 'final:Failed': 1, 'final:Cancelled': 1, 'log-forwarded': 1, 'wait': 1})
