"""P15: see parse.py."""
from . import parse

RULE = ("The builder of a workflow is interpreted path-sensitively over its MIR (typestate dataflow to a fixpoint), with every step of every job in turn: each action step is looked up by its own `uses` among the registered actions, the plugins are asked only after that failed, the expansion used is that action's, of that very step, once; building fails only if neither knows it or its expansion fails.")
ASSUME = ["Action implementations and plugins are arbitrary but return", "serde_yaml and humantime are trusted to parse what they document"]


def run(P, R):
    parse.run(P, R, {'normalize': 4, 'registered-action': 2, 'plugin-action': 2, 'resolve': 2, 'error:unresolved': 1, 'step-considered': 4})
