"""P01: a job starts only after every job it depends on has a result, and only once; the workflow waits exactly while something can still finish."""
from . import wf

RULE = 'Typestate of Workflow::run with one arbitrary job and one arbitrary dependency of it tracked as witnesses: every path through the scheduling loop (MIR, spawned tasks entered inline) is followed to a fixpoint; the dispatch of the witness job needs the witness dependency found in the results map or an empty dependency list, may happen once, every received (key, result) pair is recorded unchanged, the task loop may block only if the witness job was started or a dependency of it was seen missing, and it ends only with as many results as jobs.'
ASSUME = wf.ASSUME


def run(P, R):
    wf.levels(P, R, ['workflow'], {'launch-after-dependencies': 1, 'launch-independent': 1, 'result-recorded': 1, 'complete': 1, 'wait-for-dependencies': 1})
