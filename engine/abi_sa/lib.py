"""The library as one linked module: every source file plus every codec instantiated by drivers/all.cpp."""
from . import build
from .ir import Mod

UNITS = ["drv:all", "src:abi.cpp", "src:abieos.cpp", "src:crypto.cpp", "c:fpconv.c"]
_m = None


def lib():
    """unoptimised, uninlined IR of the whole library"""
    global _m
    if _m is None: _m = Mod(build.dump(UNITS, "lib", raw=True, globals_=True))
    return _m


def refs(o):
    """global names inside an operand"""
    if not isinstance(o, list) or not o: return
    if o[0] == "g": yield o[1]
    elif o[0] == "cgep": yield from refs(o[1])
    elif o[0] == "ce":
        for x in o[2:]: yield from refs(x)


def strip(o):
    """(global, True) when the operand is an address inside a global"""
    while isinstance(o, list) and o and o[0] in ("cgep", "ce"):
        if o[0] == "cgep": o = o[1]
        elif o[1] in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"): o = o[2]
        else: return None
    return o[1] if isinstance(o, list) and o and o[0] == "g" else None
