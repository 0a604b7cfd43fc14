"""P06: lifecycle events of workflows, jobs and steps come in one order, for the right id, on every path."""
from . import wf

RULE = 'Typestate of Workflow::run, Job::run and ExecutionContext::run: hook futures count when they are awaited; the sequence of hooks, their ids and payloads must follow the lifecycle automaton on every path, and the announced result is the returned one.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['job', 'workflow', 'step'], {'job-lifecycle': 1, 'workflow-lifecycle': 1, 'step-lifecycle': 1, 'before:pb': 1, 'before:rb': 1, 'times:job': 1, 'times:step': 1, 'times:workflow': 1})
