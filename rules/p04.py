"""P04: job and workflow end states aggregate the states of their parts."""
from . import wf

RULE = 'Typestate of Job::run and Workflow::run: the states of all finished steps / jobs are accumulated along every path and compared with the announced and the returned final state.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['job', 'workflow'], {'job-final:Succeeded': 1, 'job-final:Failed': 1, 'job-final:Cancelled': 1, 'workflow-announces:Succeeded': 1, 'workflow-announces:Failed': 1, 'workflow-announces:Cancelled': 1})
