"""P41: what is sent to a remote runner is read there as it was written."""
from . import wire

RULE = ("For each type of the workspace with both implementations: `serialize` interpreted on one arbitrary value builds an abstract document per path; `deserialize` interpreted on each document must return that value, "
        "compared field by field and variant by variant under the facts of the path. Codec: what encode and decode do with the buffer on each path.")
ASSUME = ["serde_json and serde's own implementations for std types write and read back their values (f64 other than NaN/inf); chrono and octocrate types do",
          "a step's AstroRunSignal is a handle of its process"]


def run(P, R):
    wire.round_trips(P, R)
    wire.codec(P, R)
    R.floor(None, "type", 30)
    R.floor(None, "field", 120)
    R.floor(None, "encode", 2)
    R.floor(None, "decode", 3)
