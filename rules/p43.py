"""P43: ids are made of their parts, and their text is read back as the same id."""
from . import ids

RULE = ("Composition of exact value summaries (abstract interpretation over MIR): constructor with each accessor; constructor, Display and the conversion from text; the conversion from text interpreted on symbolic texts of 0 to 6 parts; "
        "PartialEq with what each path knows of the parts.")
ASSUME = ["str::split and its relatives and str::parse do what they are documented to do", "the parts given to a constructor contain no '/'"]


def run(P, R):
    ids.ids(P, R)
    for n, k in (("part", 7), ("text", 3), ("read", 20), ("equal", 3)):
        R.floor(None, n, k)
