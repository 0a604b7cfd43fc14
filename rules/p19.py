"""P19: conditions decide which workflows, jobs and steps run."""
from . import wf

RULE = 'Typestate of Workflow::run, Job::run: every path that runs a workflow, job or step has evaluated its own condition to true or knows it has none; every skipped one has evaluated its own condition to false.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['job', 'workflow'], {'job-run': 1, 'job-skip': 1, 'workflow-run': 1, 'workflow-skip': 1, 'step-condition': 1, 'step-skip': 1})
