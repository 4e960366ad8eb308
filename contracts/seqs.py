"""Symbolic sequences (any number of atoms) for the contract modules."""
import numpy

from pyvc.api import *
from pyvc import seq

_SORT = dict(real=z3.RealSort, int=z3.IntSort, string=z3.StringSort)


def count(vc, name="n", least=1):
    n = vc.int(name)
    vc.assume(n >= least)
    return n


def index(vc, name, n):
    g = vc.int(name)
    vc.assume(And(g >= 0, g < n))
    return g


def ghosts(vc, *gs):
    """the indices at which the contract looks (arbitrary)"""
    ctx().loops["ghosts"] = [zint(g) for g in gs] + seq.wilds()


zint = seq.zint


def rows(vc, name, n, row="array", kind=list):
    """positions: n rows of three real numbers.  kind list: a list of arrays/lists/tuples; ndarray"""
    f = [z3.Function(f"{name}_{x}", z3.IntSort(), z3.RealSort()) for x in "xyz"]

    def at(i):
        r = [SReal(g(i)) for g in f]
        return obj(r) if row == "array" or kind is numpy.ndarray else r if row == "list" else tuple(r)

    return SymSeq(n, at, kind=kind, name=name, shape=(3,) if kind is numpy.ndarray else None)


def numbers(vc, name, n, sort="int", kind=list, positive=False):
    f = z3.Function(name, z3.IntSort(), _SORT[sort]())
    ax = [lambda i, v: v >= 1] if positive else []
    return SymSeq(n, lambda i: SReal(f(i)), axioms=ax, kind=kind, name=name)


def strings(vc, name, n, kind=list):
    f = z3.Function(name, z3.IntSort(), z3.StringSort())
    return SymSeq(n, lambda i: seq.SymStr(f(i)), kind=kind, name=name)


def el(s, i):
    """element of the result of the code (a list, an array or a symbolic sequence) at a ghost index"""
    s = seq.desym(s)
    return s.at(zint(i)) if isinstance(s, SymSeq) else s[i]


def length(s):
    s = seq.desym(s)
    return s.length() if isinstance(s, sym.Sym) else len(s)


CODES = {}  # texts that appear in comparisons: one number each


class SymAny(sym.Sym):
    """An arbitrary Python object: a string, an integer (perhaps a bool), a numpy integer or neither"""

    def __init__(self, name, i):
        def f(k, s):
            return z3.Function(f"{name}_{k}", z3.IntSort(), s)(i)

        self.is_str, self.is_int, self.is_bool, self.is_npint = (f(k, z3.BoolSort()) for k in ("is_str", "is_int", "is_bool", "is_npint"))
        self.s, self.i = f("text", z3.IntSort()), f("value", z3.IntSort())  # the text by its number
        for a in (z3.Not(z3.And(self.is_str, self.is_int)), z3.Implies(self.is_bool, self.is_int), z3.Not(z3.And(self.is_npint, z3.Or(self.is_int, self.is_str))), z3.Implies(self.is_bool, z3.And(self.i >= 0, self.i <= 1))):
            ctx().fact(a)

    def isinstance(self, t):
        f = {str: self.is_str, int: self.is_int, bool: self.is_bool, numpy.integer: self.is_npint}.get(t)
        if f is None:
            if t in (float, list, tuple, dict, bytes, numpy.floating):
                raise Unsupported(f"isinstance(object, {t.__name__})")
            f = z3.BoolVal(False)
        return mkbool(f)

    def _number(self):
        if not ctx().decide(z3.Or(self.is_int, self.is_npint)):
            raise Unsupported("comparison of an object that is not an integer with a number")
        return SReal(self.i)

    def __lt__(self, o):
        return self._number() < o

    def __le__(self, o):
        return self._number() <= o

    def __gt__(self, o):
        return self._number() > o

    def __ge__(self, o):
        return self._number() >= o

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(z3.And(self.is_str, self.s == CODES.setdefault(o, len(CODES))))
        if isinstance(o, int):
            return mkbool(z3.And(z3.Or(self.is_int, self.is_npint), self.i == o))
        raise Unsupported("comparison of objects")

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))

    def isin(self, xs):
        if isinstance(xs, sym.Sym):
            return xs.contains(self)
        codes = sorted({CODES.setdefault(x, len(CODES)) for x in xs if isinstance(x, str)})
        out, k = [zbool(self == x) for x in xs if not isinstance(x, str)], 0
        while k < len(codes):  # ranges of numbers
            j = k
            while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
                j += 1
            out.append(z3.And(self.is_str, self.s >= codes[k], self.s <= codes[j]))
            k = j + 1
        return mkbool(z3.Or(out))

    def __hash__(self):
        raise Unsupported("hash of an object")

    def __repr__(self):
        return "<object>"

    __str__ = __repr__


def objects(name, n):
    return SymSeq(n, lambda i: SymAny(name, i), name=name)


class Shape(sym.Sym):
    """shape of an array of any number of dimensions"""

    def __init__(self, n):
        c = ctx()
        self.ndim = c.fresh("ndim", "int")
        self.m = c.fresh("m", "int")
        self.n = n
        c.fact(z3.And(self.ndim >= 1, self.m >= 0))

    def length(self):
        return SReal(self.ndim)

    def __getitem__(self, i):
        i = int(i) if i >= 0 else None
        if i is None:
            raise Unsupported("shape[-1]")
        if not ctx().decide(self.ndim > i):
            raise IndexError("tuple index out of range")
        return (self.n, SReal(self.m))[i] if i < 2 else SReal(ctx().fresh("dim", "int"))

    def __eq__(self, o):
        if isinstance(o, tuple) and len(o) == 2:
            return mkbool(z3.And(self.ndim == 2, zint(self.n) == zint(o[0]), self.m == zint(o[1])))
        raise Unsupported("comparison of shapes")

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))

    __hash__ = None

    def __repr__(self):
        return "<shape>"


class Nested(sym.Sym):
    """A sequence of n objects of any kind: numpy.array makes an array of some shape of it, or refuses"""

    def __init__(self, n):
        self.n = n
        self.regular = ctx().fresh("regular", "bool")
        self._shape = Shape(n)
        self.orig = {}

    def length(self):
        return self.n

    def as_array(self):
        if not ctx().decide(self.regular):
            raise ValueError("setting an array element with a sequence")
        return NestedArray(self)

    def isinstance(self, t):
        raise Unsupported("isinstance of positions")

    def valid(self):
        return And(SBool(self.regular), SBool(self._shape.ndim == 2), SBool(self._shape.m == 3))

    def changed(self):
        return []

    def __repr__(self):
        return "<positions>"


class NestedArray(sym.Sym):
    def __init__(self, p):
        self.p = p
        self.shape = p._shape
        self.ndim = SReal(p._shape.ndim)

    def length(self):
        return self.p.n

    def as_array(self):
        return self

    def isinstance(self, t):
        return t is numpy.ndarray
