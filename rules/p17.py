"""P17: see parse.py."""
from . import parse

RULE = ('The builder of a workflow is interpreted path-sensitively over its MIR from Workflow::builder() on, with one arbitrary configured step (or expansion of one) and any others; every field of the built Step, Job and Workflow is compared with the configuration field of that step and job by value provenance, including defaults.')
ASSUME = ["Action implementations and plugins are arbitrary but return", "serde_yaml and humantime are trusted to parse what they document"]


def run(P, R):
    parse.run(P, R, {'step-built': 20, 'job-built': 4, 'workflow-built': 2})
