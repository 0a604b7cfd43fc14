"""P42: every documented key of a workflow file is read into the setting it names."""
from . import wire

RULE = ("The `deserialize` implementation of each part of a workflow file, interpreted on abstract documents with all keys (in both orders), only the required ones, each optional one alone, and with each required key missing; "
        "each key's value must arrive in its field. Untagged parts: each way of writing them must be read as its own variant.")
ASSUME = ["serde_yaml reports keys and values as they are written; serde's implementations for std types."]


def run(P, R):
    wire.config_keys(P, R)
    for n, k in (("read", 40), ("key", 200), ("required", 5), ("variant", 12)):
        R.floor(None, n, k)
