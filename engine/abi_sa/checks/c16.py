"""The conversions of structures are interpreted abstractly as whole machines (top-level loop, step functions, recursion through the
type) for every structure of up to three plain or extension fields and for nestings of structures in structures, arrays, optionals,
variants and extensions.  Every token, member lookup and end-of-input test forks into all its answers; each outcome (accepted with
these bytes, or rejected) is compared with the rule of the property."""
from ..steps import *

TECHNIQUE = "abstract interpretation of the conversion machines with a non-deterministic token source, document tree and input"
LEVEL = "other"
NOTE = "The shapes are bounded: structures of up to three fields and one or two levels of nesting; documents of up to 24 tokens. Leaf conversions are opaque. Ordering of the reorderable conversion ignores unknown members, as it does."


def run(rep, tier):
    sh = structures()
    survey(rep, sh, ("js", "jv", "bj"), {"accepts": "accepted only with every field present in order", "rejects": "a legal object is converted", "bytes": "exactly the fields present are converted, in declared order"})
    rep.need("accepted only with every field present in order", 300); rep.need("exactly the fields present are converted, in declared order", 100)
