"""P16: see parse.py."""
from . import parse

RULE = ('The builder of a workflow is interpreted path-sensitively over its MIR with one arbitrary configured step w and any number of steps before or after it; lists are abstracted to sequences of segments, and in the step list of every built job the pre-steps, steps and post-steps of w and of the others must come in the specified order, each due one exactly once.')
ASSUME = ["Action implementations and plugins are arbitrary but return", "serde_yaml and humantime are trusted to parse what they document"]


def run(P, R):
    parse.run(P, R, {'order-checked': 4, 'step:pre': 2, 'step:main': 4, 'step:post': 2})
