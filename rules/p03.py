"""P03: step order, failure and skip policy inside a job."""
from . import wf

RULE = 'Typestate of Job::run: every path of the loop over the configured steps is followed through the MIR to a fixpoint; each step, in order, is dispatched or reported skipped exactly once and contributes exactly one result; it may be dispatched only if the job is not cancelled, no earlier step failed unless continue-on-error, and its condition matched.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['job'], {'dispatch': 1, 'skip-recorded': 1, 'step-closed': 1, 'skip:the job was cancelled': 1, 'skip:an earlier step failed': 1})
