"""What contract modules import."""
import numpy as _np
import z3

from .loader import Loader
from .npshim import as_real, obj
from .seq import SymSeq
from .sym import And, Eq, Engine, Iff, Implies, Not, Or, Poison, SBool, SReal, Sym, Unsupported, VC, ctx, is_sym, mkbool, zbool, znum, zreal
from . import sym, npshim, seq

HARNESSES = []


def harness(*functions, cases=None, assumed=(), **opts):
    """A contract harness: the functions it puts under contract, the contracts it assumes."""

    def deco(fn):
        if cases is None:
            HARNESSES.append((fn.__name__, fn, (), functions, assumed, opts))
        else:
            for c in cases:
                c = c if isinstance(c, tuple) else (c,)
                nm = fn.__name__ + "[" + ",".join(str(x) for x in c) + "]"
                HARNESSES.append((nm, fn, c, functions, assumed, opts))
        return fn

    return deco
