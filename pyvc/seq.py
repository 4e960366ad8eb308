"""Loops and symbolic sequences.

A loop over an ordinary iterable is executed iteration by iteration.  A loop over a symbolic
sequence (arbitrary length) is cut:

* some iteration: a fresh index 0 <= i < n, everything the body assigns is unknown (described only
  by the invariant of the harness, if there is one); if the body leaves the loop (return, break,
  raise) the path goes on from there; if it reaches the head of the loop again, the invariant is
  proved for i + 1 and the path ends;
* completion: the invariant is assumed for n; as every iteration went through normally, the body
  is run for the ghost indices of the harness, which makes what it established there known.

A while loop is cut the same way if the harness gives an invariant for it, otherwise it is run
iteration by iteration (which ends only if its condition becomes concrete).
"""

import os
import sys

import numpy as np
import z3

from . import sym
from .sym import And, Not, Or, PathEnd, Poison, Restart, SBool, SReal, Sym, Unsupported, ctx, is_sym, mkbool, zbool, znum, zreal


def zint(x):
    if isinstance(x, SReal):
        if not x.e.is_int():
            raise Unsupported("real number as an index")
        return x.e
    if z3.is_expr(x):
        return x
    return z3.IntVal(int(x))


def num(e):
    return SReal(e)


def wilds():
    """Arbitrary indices that exist from the start of a run (and are followed through all loops like
    those of the contract).  An index that comes up later (some iteration, some witness) takes the
    value of one of them if the run needs the element of a list that a loop has filled before: the
    first runs find out at which places such an index comes up."""
    out = [z3.Int(f"wild!{j}") for j in range(len(ctx().engine.__dict__.get("wilds", ())))]
    for w in out:
        ctx().fact(w >= 0)
    return out + [z3.IntVal(v) for v in ctx().engine.__dict__.get("constants", ())]


def _place():
    f = sys._getframe(2)
    out = [f.f_code.co_name, f.f_lineno]
    while f is not None and os.sep + "pyvc" + os.sep in f.f_code.co_filename:
        f = f.f_back
    return (*out, *((f.f_code.co_filename, f.f_code.co_name, f.f_lineno) if f is not None else ()))


def some_index(c):
    """an arbitrary index"""
    place = _place()
    n = c.loops.setdefault("places", {}).get(place, 0)
    c.loops["places"][place] = n + 1
    ws = c.engine.__dict__.get("wilds", [])
    if (place, n) in ws and "ghosts" in c.loops:
        return z3.Int(f"wild!{ws.index((place, n))}")
    i = c.fresh("idx", "int")
    c.loops.setdefault("indices", {})[i.decl().name()] = place, n
    return i


def not_followed(t, what="element of an accumulated list at an index that was not followed"):
    if ctx().lra_unsat(z3.BoolVal(True)):
        raise PathEnd()  # this path is not feasible
    e = ctx().engine
    if z3.is_int_value(t) and t.as_long() not in e.__dict__.setdefault("constants", []) and len(e.constants) < 4 and "ghosts" in ctx().loops:
        e.constants.append(t.as_long())
        raise Restart()
    for u in ctx().loops.get("sets", ()):
        for y, j in u.found:
            if z3.eq(j, t):
                new = {k for k, v in u.src.memo.items() if v is y}
                if new and all(k.startswith("idx!") for k in new):
                    t = u.src.terms[min(new)]  # becomes one of the indices that exist from the start
                elif new - e.__dict__.setdefault("places", set()):
                    e.places |= new
                    raise Restart()
    if z3.is_const(t) and t.decl().name().startswith("wild!") and t.decl().name() not in e.__dict__.setdefault("raw", []):
        e.raw.append(t.decl().name())  # an index of the elements of a set
        raise Restart()
    key = ctx().loops.get("indices", {}).get(t.decl().name()) if z3.is_const(t) else None
    ws = e.__dict__.setdefault("wilds", [])
    if key is not None and key not in ws and len(ws) < 4 and "ghosts" in ctx().loops:
        ws.append(key)
        raise Restart()
    if os.environ.get("VC_DEBUG"):
        import traceback
        traceback.print_stack(limit=9)
        print("not followed:", what, t, key, *ws, sep="\n   ", file=sys.stderr)
    raise Unsupported(f"{what}: {t}")


# ------------------------------------------------------------------------------- sequences
class SymSeq(Sym):
    """Sequence of symbolic length; at(i) gives the element for an Int term i."""

    kind = list

    def __init__(self, n, at, axioms=(), kind=list, name="seq", shape=None, ghosts=None):
        self.n = zint(n)
        self._at = at
        self.axioms = list(axioms)
        self.kind = kind
        self.name = name
        self.memo = {}
        self.orig = {}
        self.terms = {}
        self.shape_tail = shape  # e.g. (3,) for an (N, 3) array
        self.poisoned = None
        self.version = 0
        self._ghosts = ghosts
        self.only = None

    def ghosts(self):
        """indices at which the harness looks (in the numbering of this sequence)"""
        return list(ctx().loops.get("ghosts", [])) if self._ghosts is None else list(self._ghosts())

    def at(self, i):
        if self.poisoned:
            raise Unsupported(self.poisoned)
        i = z3.simplify(zint(i))
        k = i.sexpr()
        if self.only is not None and k not in self.only:
            not_followed(i, f"element of {self.name} at an index that was not followed through a loop that changes elements")
        if k not in self.memo:
            v = self._at(i)
            self.memo[k] = v
            self.terms[k] = i
            if isinstance(v, (np.ndarray, list, dict)):
                self.orig[k] = _copy1(v)
                ctx().loops.setdefault("seqs", {})[id(self)] = self
            c = ctx()
            for ax in self.axioms:
                f = zbool(ax(i, v))
                c.fact(z3.Implies(z3.And(i >= 0, i < self.n), f))
            if self.distinct:
                for k2, t in self.terms.items():
                    if k2 != k:
                        c.fact(z3.Implies(z3.And(i >= 0, i < self.n, t >= 0, t < self.n), (i == t) == zbool(_eq(v, self.memo[k2]))))
        return self.memo[k]

    def changed(self):
        """indices whose elements are not what they were when first looked at"""
        return [k for k, o in self.orig.items() if not _same1(o, self.memo[k])]

    def reader(self):
        """element function of the present state (for sequences derived from this one)"""
        v = self.version

        def at(i):
            if self.version != v:
                raise Unsupported(f"use of an earlier state of {self.name}")
            return self.at(i)

        return at

    unique_source = None
    _root = None  # the sequence whose element i this element i is made of

    @property
    def root(self):
        return self if self._root is None else self._root

    distinct = False  # the elements are pairwise different
    parts = None  # tuples: the sequences of their elements, of the same length as this one
    first = None  # pairs: the sequence of their first elements, if these are pairwise different

    def derived(self, f=None, kind=None, shape=None):
        at = self.reader()
        r = SymSeq(self.n, (lambda i: f(at(i))) if f else at, kind=kind or self.kind, name=self.name, shape=shape, ghosts=self._ghosts)
        r.unique_source = self.unique_source
        r._root = self.root
        if f is None:
            r.distinct, r.first, r.parts = self.distinct, self.first, self.parts
        return r

    def _become(self, new):
        """in-place operation on a whole array"""
        self._at, self.memo, self.orig, self.terms, self.axioms = new.at, {}, {}, {}, []
        self.version += 1
        return self

    def _snapshot(self):
        """a copy that stays what this sequence is now"""
        r = SymSeq(self.n, self._at, self.axioms, self.kind, self.name, self.shape_tail, self._ghosts)
        r.memo = {k: _copy1(v) for k, v in self.memo.items()}
        r.terms = dict(self.terms)
        r.poisoned, r.only, r._root, r.unique_source = self.poisoned, self.only, self._root, self.unique_source
        r.distinct, r.first, r.parts = self.distinct, self.first, self.parts
        return r

    def length(self):
        return num(self.n)

    def __len__(self):
        raise Unsupported("len() of a symbolic sequence by foreign code")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence outside of a loop statement")

    def __bool__(self):
        return ctx().decide(self.n > 0)

    @property
    def shape(self):
        return (num(self.n),) + tuple(self.shape_tail or ())

    @property
    def ndim(self):
        return len(self.shape)

    def isinstance(self, t):
        t = getattr(t, "__origin__", t)  # typing.Iterable
        return t is self.kind or (t.__module__ == "collections.abc" and issubclass(self.kind, t))

    def __getitem__(self, i):
        if isinstance(i, tuple):
            r = self[i[0]]
            if isinstance(r, SymSeq):
                return r.map(lambda x: x[i[1:]] if len(i) > 2 else x[i[1]])
            return r[i[1:]] if len(i) > 2 else r[i[1]]
        if isinstance(i, slice):
            if i == slice(None):
                return self.derived(shape=self.shape_tail)
            if i.step in (None, 1):
                lo = zint(i.start or 0)
                hi = self.n if i.stop is None else zint(i.stop)
                if i.stop is not None and not is_sym(i.stop) and i.stop < 0:
                    hi = self.n + i.stop
                c = ctx()
                if not c.lra_unsat(z3.Not(z3.And(lo >= 0, lo <= hi, hi <= self.n))):
                    raise Unsupported("slice that may be out of range")
                at = self.reader()
                m = z3.simplify(hi - lo)
                if self.kind is list and z3.is_int_value(m) and m.as_long() <= 64:
                    return GList([at(z3.simplify(lo + j)) for j in range(m.as_long())])
                gh = lambda: [z3.simplify(g - lo) for g in self.ghosts()]
                return SymSeq(hi - lo, lambda j: at(lo + j), kind=self.kind, name=self.name, shape=self.shape_tail, ghosts=gh)
            raise Unsupported("slice with a step")
        if isinstance(i, SymSeq):
            return i.map(lambda j: self[j])
        if not is_sym(i) and int(i) < 0:
            i = num(self.n + int(i))
        e = zint(i)
        if not ctx().decide(z3.And(e >= 0, e < self.n)):
            raise IndexError("list index out of range")
        return self.at(e)

    def __setitem__(self, i, v):
        if isinstance(i, tuple):
            self[i[0]][i[1:] if len(i) > 2 else i[1]] = v
            return
        if isinstance(i, slice):
            if i != slice(None):
                raise Unsupported("write to a slice of a symbolic sequence")
            v = desym(v)
            self._become(v if isinstance(v, SymSeq) else SymSeq(self.n, lambda j: v))
            return
        e = z3.simplify(zint(i))
        if not ctx().decide(z3.And(e >= 0, e < self.n)):
            raise IndexError("list assignment index out of range")
        self.at(e)
        k = e.sexpr()
        loop = ctx().loops.get("active")
        if loop is None:
            raise Unsupported("write to a symbolic sequence outside of a symbolic loop")
        if k not in self.orig:
            self.orig[k] = self.memo[k]
            ctx().loops.setdefault("seqs", {})[id(self)] = self
        self.memo[k] = obj1(v) if self.kind is np.ndarray else v

    def map(self, f, kind=None, shape=None):
        return self.derived(f, kind=kind, shape=shape)

    def enumerate(self, start=0):
        at = self.reader()
        r = SymSeq(self.n, lambda i: (num(z3.simplify(i + zint(start))), at(i)), name=self.name, ghosts=self._ghosts)
        r.unique_source = self.unique_source
        r._root = self.root
        r.parts = (None, self)
        return r

    def as_list(self):
        return self.derived(kind=list, shape=self.shape_tail)

    def as_array(self):
        """a new array (elements are copied)"""
        tail = self.shape_tail

        def el(x):
            x = desym(x)
            return obj1(x) if not isinstance(x, SymSeq) else x

        return self.derived(el, kind=np.ndarray, shape=tail)

    def copy(self):
        return self.derived(_copy1 if self.kind is np.ndarray else None, shape=self.shape_tail)

    def deepcopy(self):
        return self.derived(_copy1, shape=self.shape_tail)

    def __deepcopy__(self, memo):
        return self.deepcopy()

    __copy__ = copy

    def tolist(self):
        return self.as_list()

    def astype(self, t):
        return self.as_array()

    def contains(self, x):
        """x in sequence: at some index, or different from every element"""
        c = ctx()
        if c.choose(2) == 0:
            w = some_index(c)
            c.assume(z3.And(w >= 0, w < self.n))
            c.assume(zbool(_eq(self.at(w), x)))
            return True
        for g in self.ghosts():
            if c.decide(z3.And(g >= 0, g < self.n)):
                c.assume(z3.Not(zbool(_eq(self.at(g), x))))
        return False

    def as_set(self):
        return SymSet(self)

    # elementwise arithmetic of arrays
    def _el(self, o, f):
        if isinstance(o, SymSeq):
            if not ctx().lra_unsat(o.n != self.n):
                raise Unsupported("arithmetic of symbolic sequences of different lengths")
            a, b = self.reader(), o.reader()
            return SymSeq(self.n, lambda i: f(a(i), b(i)), kind=np.ndarray, shape=self.shape_tail, ghosts=self._ghosts)
        if isinstance(o, (list, tuple)):
            o = obj1(o)
        a = self.reader()
        return SymSeq(self.n, lambda i: f(a(i), o), kind=np.ndarray, shape=self.shape_tail, ghosts=self._ghosts)

    def _arr(self):
        if self.kind is not np.ndarray:
            raise Unsupported(f"arithmetic of a symbolic {self.kind.__name__}")

    def __add__(self, o):
        if self.kind is list and isinstance(o, (list, SymSeq)):
            return sym_concat(self, o)
        self._arr()
        return self._el(o, lambda a, b: a + b)

    def __radd__(self, o):
        if self.kind is list and isinstance(o, list):
            return sym_concat(o, self)
        self._arr()
        return self._el(o, lambda a, b: b + a)

    def __sub__(self, o):
        self._arr()
        return self._el(o, lambda a, b: a - b)

    def __rsub__(self, o):
        self._arr()
        return self._el(o, lambda a, b: b - a)

    def __mul__(self, o):
        self._arr()
        return self._el(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __iadd__(self, o):
        if self.kind is list:
            return self._become(sym_concat(self._snapshot(), o))
        return self._become(self._snapshot() + o)

    def __isub__(self, o):
        return self._become(self._snapshot() - o)

    def __imul__(self, o):
        return self._become(self._snapshot() * o)

    def __itruediv__(self, o):
        return self._become(self._snapshot() / o)

    def __imod__(self, o):
        return self._become(self._snapshot() % o)

    def append(self, v):
        if ctx().loops.get("active") is not None:
            raise Unsupported("append to a symbolic sequence in a symbolic loop")
        old = SymSeq(self.n, self._at, kind=list)
        old.memo = dict(self.memo)
        new = sym_concat(old, [v])
        self.n = new.n
        self._become(new)

    def __truediv__(self, o):
        self._arr()
        return self._el(o, lambda a, b: a / b)

    def __mod__(self, o):
        self._arr()
        return self._el(o, lambda a, b: a % b)

    def __lt__(self, o):
        self._arr()
        return self._el(o, _cmp(lambda a, b: a < b))

    def __le__(self, o):
        self._arr()
        return self._el(o, _cmp(lambda a, b: a <= b))

    def __gt__(self, o):
        self._arr()
        return self._el(o, _cmp(lambda a, b: a > b))

    def __ge__(self, o):
        self._arr()
        return self._el(o, _cmp(lambda a, b: a >= b))

    def __floordiv__(self, o):
        self._arr()
        return self._el(o, lambda a, b: a // b)

    def __neg__(self):
        self._arr()
        return self.map(lambda a: -a, shape=self.shape_tail)

    def __abs__(self):
        self._arr()
        return self.map(abs, shape=self.shape_tail)

    def __matmul__(self, m):
        self._arr()
        from .npshim import obj

        return self.map(lambda a: obj(a) @ obj(m), shape=self.shape_tail)

    def __rmatmul__(self, m):
        raise Unsupported("matrix @ symbolic array")

    __array_ufunc__ = None

    @property
    def T(self):
        return SymT(self)

    def reduce(self, f, axis):
        """minimum/maximum over axis 0"""
        if axis != 0:
            raise Unsupported("reduction over another axis than 0")
        from .npshim import min2, max2, elementwise

        lower = f is min2
        c = ctx()
        if not c.decide(self.n > 0):
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        first = np.asarray(self.at(z3.IntVal(0)), dtype=object)
        out = np.empty(first.shape, dtype=object)
        for k in np.ndindex(out.shape):
            v = c.fresh("min" if lower else "max")
            w = c.fresh("arg", "int")
            c.ring.atom_key(v)
            x = zreal(np.asarray(self.at(w), dtype=object)[k])
            c.fact(z3.And(w >= 0, w < self.n, v == x))
            out[k] = SReal(v)
        # every element (instantiated when it is looked at)
        def bound(i, el):
            el = np.asarray(el, dtype=object)
            fs = []
            for k in np.ndindex(out.shape):
                v, x = zreal(out[k]), zreal(el[k])
                fs.append(v <= x if lower else v >= x)
            return z3.And(fs)

        self.add_axiom(bound)
        return out[()] if out.shape == () else out

    def add_axiom(self, ax):
        """for every index: ax(i, element); also for the indices already looked at and the ghosts"""
        c = ctx()
        for g in self.ghosts():
            self.at(g)
        self.axioms.append(ax)
        for k, el in list(self.memo.items()):
            i = self.terms[k]
            c.fact(z3.Implies(z3.And(i >= 0, i < self.n), zbool(ax(i, self.orig.get(k, el)))))

    def min(self, axis=None):
        from .npshim import min2

        return self.reduce(min2, 0 if axis is None and not self.shape_tail else axis)

    def max(self, axis=None):
        from .npshim import max2

        return self.reduce(max2, 0 if axis is None and not self.shape_tail else axis)

    # quantifiers: split with a witness / ghost instances
    def all(self):
        c = ctx()
        if z3.is_int_value(self.n) and self.n.as_long() == 0:
            return True
        if c.choose(2) == 0:
            w = some_index(c)
            c.assume(z3.And(w >= 0, w < self.n))
            c.assume(z3.Not(zbool(_truth(self.at(w)))))
            return False
        for g in self.ghosts():
            c.assume(z3.Implies(z3.And(g >= 0, g < self.n), zbool(_truth(self.at(g)))))
        return True

    def any(self):
        c = ctx()
        if z3.is_int_value(self.n) and self.n.as_long() == 0:
            return False
        if c.choose(2) == 0:
            w = some_index(c)
            c.assume(z3.And(w >= 0, w < self.n))
            c.assume(zbool(_truth(self.at(w))))
            return True
        for g in self.ghosts():
            c.assume(z3.Implies(z3.And(g >= 0, g < self.n), z3.Not(zbool(_truth(self.at(g))))))
        return False

    def allclose(self, o, rtol, atol):
        from .npshim import close1, obj

        if not isinstance(o, SymSeq):
            raise Unsupported("allclose of a symbolic and a concrete sequence")
        c = ctx()
        n, one, two = self.n, False, False
        if not c.decide(self.n == o.n):
            if c.decide(self.n == 1):
                n, one = o.n, True
            elif c.decide(o.n == 1):
                two = True
            else:
                raise ValueError("operands could not be broadcast together")

        def el(i):
            a, b = obj(self.at(z3.IntVal(0) if one else i)), obj(o.at(z3.IntVal(0) if two else i))
            return And([close1(x, y, rtol, atol) for x, y in zip(a.flat, b.flat)])

        return SymSeq(n, el, ghosts=(o if one else self)._ghosts).all()

    def __eq__(self, o):
        """equality of lists (as a condition: some index differs, or none does)"""
        if self is o:
            return True
        o = desym(o)
        if self.kind is not list or not isinstance(o, SymSeq) or o.kind is not list:
            if isinstance(o, list) and self.kind is list and not ctx().decide(self.n == len(o)):
                return False
            if o is None or isinstance(o, (str, int)):
                return False
            raise Unsupported("comparison of symbolic sequences")
        if not ctx().decide(self.n == o.n):
            return False
        a, b = self.reader(), o.reader()
        return SymSeq(self.n, lambda i: mkbool(zbool(_eq(a(i), b(i)))), ghosts=self._ghosts).all()

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    __hash__ = None

    def __repr__(self):
        return f"<symbolic {self.kind.__name__} {self.name}>"


class SymT:
    """transpose of a symbolic (N, 3) array"""

    def __init__(self, s):
        self.s = s

    @property
    def T(self):
        return self.s

    def __getitem__(self, k):
        return self.s.map(lambda x: x[k])


def _copy1(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [_copy1(i) for i in x]
    if isinstance(x, dict):
        return dict(x)
    return x


def obj1(x):
    """array of a row (always new), or the number itself"""
    if isinstance(x, (np.ndarray, list, tuple)):
        from .npshim import obj

        return obj(x).copy()
    return x


def _same1(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and all(x is y for x, y in zip(a.flat, b.flat))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same1(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(a[k] is b[k] for k in a)
    return a is b


def _cmp(f):
    def g(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            from .npshim import elementwise

            return elementwise(f, a, b)
        return f(a, b)

    return g


def _truth(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return x
    if isinstance(x, np.ndarray):
        return And([_truth(i) for i in x.flat])
    raise Unsupported("truth of a symbolic element " + type(x).__name__)


def desym(x):
    """a list (dictionary) that a symbolic loop has filled -> its symbolic sequence (map)"""
    if isinstance(x, (GList, GDict)):
        return x.view()
    return x


def sym_concat(a, b):
    a, b = desym(a), desym(b)
    na = a.n if isinstance(a, SymSeq) else z3.IntVal(len(a))
    nb = b.n if isinstance(b, SymSeq) else z3.IntVal(len(b))
    ra = a.reader() if isinstance(a, SymSeq) else None
    rb = b.reader() if isinstance(b, SymSeq) else None

    def at(i):
        if ctx().decide(i < na):
            return ra(i) if ra else _concrete_index(a, i)
        t = z3.simplify(i - na)
        return rb(t) if rb else _concrete_index(b, t)

    def ghosts():
        out = a.ghosts() if isinstance(a, SymSeq) else [z3.IntVal(k) for k in range(len(a))]
        return out + ([z3.simplify(g + na) for g in b.ghosts()] if isinstance(b, SymSeq) else [z3.simplify(na + k) for k in range(len(b))])

    return SymSeq(na + nb, at, ghosts=ghosts)


def _concrete_index(xs, i):
    i = z3.simplify(i)
    if z3.is_int_value(i):
        return xs[i.as_long()]
    for k in range(len(xs)):
        if ctx().decide(i == k):
            return xs[k]
    raise PathEnd()


def sym_range(*a):
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) == 3 and a[2] != 1:
        raise Unsupported("range with a step")
    lo, hi = zint(lo), zint(hi)
    c = ctx()
    n = z3.simplify(hi - lo)
    if not c.decide(n > 0):
        return range(0)
    return SymSeq(n, lambda i: num(z3.simplify(lo + i)), kind=range, name="range")


def sym_arange(*a):
    r = sym_range(*a)
    return r.derived(kind=np.ndarray) if isinstance(r, SymSeq) else np.arange(0)


def sym_zip(*xs):
    xs = [desym(x) for x in xs]
    ns = [x.n if isinstance(x, SymSeq) else z3.IntVal(len(x)) for x in xs]
    n = ns[0]
    c = ctx()
    for m in ns[1:]:
        if not c.decide(m == n):
            n = m if c.decide(m < n) else n
    rs = [x.reader() if isinstance(x, SymSeq) else None for x in xs]
    r = SymSeq(n, lambda i: tuple(r(i) if r else _concrete_index(x, i) for r, x in zip(rs, xs)), name="zip", ghosts=next((x._ghosts for x in xs if isinstance(x, SymSeq) and x._ghosts), None))
    if isinstance(xs[0], SymSeq) and z3.eq(n, ns[0]):
        r.unique_source, r._root = xs[0].unique_source, xs[0].root
    r.parts = [x if isinstance(x, SymSeq) and z3.eq(z3.simplify(x.n - n), z3.IntVal(0)) else None for x in xs]
    return r


def sym_map(f, *xs):
    xs = [desym(x) for x in xs]
    if len(xs) != 1:
        return sym_zip(*xs).map(lambda t: f(*t))
    return xs[0].map(f)


# ------------------------------------------------------------------------------- sets and maps
class SymSet(Sym):
    """set(sequence)"""

    def __init__(self, seq):
        self.seq = seq
        self.m = None

    def isinstance(self, t):
        return t is set

    def contains(self, x):
        return self.seq.contains(x)

    def __bool__(self):
        return bool(self.seq)

    def distinct(self):
        """are the elements of the sequence pairwise different?"""
        c = ctx()
        s = self.seq
        if self.m is None:
            self.m = c.fresh("distinct", "int")
            c.assume(z3.And(self.m >= 0, self.m <= s.n, z3.Implies(s.n > 0, self.m > 0)))
            if c.choose(2) == 0:
                c.assume(self.m == s.n)
                gs = s.ghosts()
                for a in range(len(gs)):
                    for b in range(a):
                        if c.decide(z3.And(gs[a] >= 0, gs[a] < s.n, gs[b] >= 0, gs[b] < s.n, gs[a] != gs[b])):
                            c.assume(z3.Not(zbool(_eq(s.at(gs[a]), s.at(gs[b])))))
                self.is_distinct = True
            else:
                v, w = some_index(c), some_index(c)
                c.assume(z3.And(self.m < s.n, v >= 0, v < w, w < s.n))
                c.assume(zbool(_eq(s.at(v), s.at(w))))
                self.is_distinct = False
        return self.is_distinct

    def length(self):
        self.distinct()
        return num(self.m)

    def as_list(self):
        return UniqueSeq(self)

    def sorted(self, **k):
        return UniqueSeq(self)

    def comprehension(self, kind, fn, cond):
        return comprehension(kind, UniqueSeq(self), fn, cond)


class UniqueSeq(SymSeq):
    """The elements of a set in some order: pairwise different, and every element of the original
    sequence occurs once (index_of)."""

    def __init__(self, st):
        c = ctx()
        self.src = st.seq
        c.loops.setdefault("sets", []).append(self)
        n = c.fresh("distinct", "int")
        c.assume(z3.And(n >= 0, n <= st.seq.n, z3.Implies(st.seq.n > 0, n > 0)))
        self.found = []
        src = st.seq

        def at(i):
            # every element of the set is an element of the sequence
            w = some_index(c)
            c.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(w >= 0, w < src.n)))
            return src.at(w)

        super().__init__(n, at, name="set", ghosts=self.places)
        self.unique_source = self

    def places(self):
        """where the elements are that the harness looks at"""
        c = ctx()
        out = []
        known = c.engine.__dict__.get("places", ())
        for g in self.src.ghosts():
            if z3.simplify(g).sexpr() in known and c.decide(z3.And(g >= 0, g < self.src.n)):
                out.append(self.index_of(self.src.at(g)))
        return out + [z3.Int(w) for w in c.engine.__dict__.get("raw", ())]

    distinct = True

    def index_of(self, x):
        """index of the element equal to x"""
        c = ctx()
        for y, j in self.found:
            if y is x or (hasattr(y, "e") and hasattr(x, "e") and z3.eq(y.e, x.e)):
                return j
        j = c.fresh("j", "int")
        c.fact(z3.And(j >= 0, j < self.n))
        # the element at j is x itself
        k = z3.simplify(j).sexpr()
        self.memo[k], self.terms[k] = x, j
        for k2, t in list(self.terms.items()):
            if k2 != k:
                c.fact(z3.Implies(z3.And(t >= 0, t < self.n), (j == t) == zbool(_eq(x, self.memo[k2]))))
        self.found.append((x, j))
        return j

    def sorted(self, **k):
        return self

    def as_list(self):
        return self

    def reader(self):
        return self.at

    where = None

    def index(self, x):
        if self.where is None:
            self.where = SymMap(self, lambda el: (el, None))
            self.where.keys_seq = self
        j = self.where.find(x)
        if j is None:
            raise ValueError("not in list")
        return num(j)


class SymMap(Sym):
    """{key(x): value(x) for x in sequence}: the value of the last element with the key"""

    keys_seq = None  # the keys, if they are pairwise different

    def __init__(self, seq, fn):
        self.seq, self.fn = seq, fn
        self.looked = []

    @property
    def distinct(self):
        return self.keys_seq is not None

    def isinstance(self, t):
        return t is dict

    def contains(self, x):
        return self.find(x) is not None

    def find(self, x):
        c = ctx()
        s = self.seq
        e = getattr(x, "e", None)
        for y, j in self.looked:
            if y is x or (e is not None and hasattr(y, "e") and z3.eq(z3.simplify(y.e), z3.simplify(e))):
                return j
        q = self.keys_seq
        src = s.unique_source or (q.unique_source if q is not None else None)
        if src is not None and q is not None:
            for k, v in list(src.src.memo.items()):
                t = src.src.terms[k]
                if (v is x or (e is not None and hasattr(v, "e") and z3.eq(z3.simplify(v.e), z3.simplify(e)))) and c.decide(z3.And(t >= 0, t < src.src.n)):
                    q.at(src.index_of(v))
        if q is not None:
            for k, v in list(q.memo.items()):
                t = q.terms[k]
                if (v is x or (e is not None and hasattr(v, "e") and z3.eq(z3.simplify(v.e), z3.simplify(e)))) and c.decide(z3.And(t >= 0, t < q.n)):
                    return t
        if src is not None:
            # every element of the sequence is in the set: so are those the path has looked at
            for k, v in list(src.src.memo.items()):
                t = src.src.terms[k]
                if c.decide(z3.And(t >= 0, t < src.src.n)):
                    j = src.index_of(v)
                    c.fact(z3.Implies(zbool(_eq(v, x)), zbool(_eq(src.at(j), x))))
        if c.choose(2) == 0:
            j = some_index(c)
            c.assume(z3.And(j >= 0, j < s.n))
            if q is not None:
                c.assume(zbool(_eq(q.at(j), x)))
                c.feasible()
            else:
                c.assume(zbool(_eq(self.fn(s.at(j))[0], x)))
            for g in s.ghosts():
                if c.decide(z3.And(g > j, g < s.n)):
                    c.assume(z3.Not(zbool(_eq(self.fn(s.at(g))[0], x))))
            for y, j2 in self.looked:
                if j2 is not None:
                    c.assume(z3.Implies(zbool(_eq(x, y)), j == j2))
        else:
            j = None
            if src is not None and q is not None:
                for _, i in src.found:
                    q.at(i)
            for g in list(s.ghosts()) + ([i for _, i in src.found] if src is not None and q is None else []):
                if c.decide(z3.And(g >= 0, g < s.n)):
                    c.assume(z3.Not(zbool(_eq(self.fn(s.at(g))[0], x))))
            r = s.root
            for t in list(r.terms.values()) if r.version == 0 and r.only is None and not r.poisoned else ():
                c.assume(z3.Implies(z3.And(t >= 0, t < s.n), z3.Not(zbool(_eq(self.fn(s.at(t))[0], x)))))
            for k, v in list(q.memo.items()) if q is not None else ():
                t = q.terms[k]
                c.assume(z3.Implies(z3.And(t >= 0, t < q.n), z3.Not(zbool(_eq(v, x)))))
            for y, j2 in self.looked:
                if j2 is not None:
                    c.assume(z3.Not(zbool(_eq(x, y))))
        c.feasible()
        self.looked.append((x, j))
        return j

    def __getitem__(self, x):
        j = self.find(x)
        if j is None:
            raise KeyError("key")
        return self.fn(self.seq.at(j))[1]

    def get(self, x, default=None):
        j = self.find(x)
        return default if j is None else self.fn(self.seq.at(j))[1]

    def __getattr__(self, k):
        raise Unsupported(f"dict.{k} of a symbolic dictionary")


class SymDict(Sym):
    """A dictionary of the code: a symbolic map (or nothing) and a few entries written later"""

    def __init__(self, base=None, entries=()):
        self.base = base
        self.entries = [list(e) for e in entries]

    def isinstance(self, t):
        t = getattr(t, "__origin__", t)
        return t is dict or (t.__module__ == "collections.abc" and issubclass(dict, t))

    def find(self, k):
        for e in self.entries:
            if bool(_eq(e[0], k)):
                return e[1]
        if self.base is not None:
            j = self.base.find(k)
            if j is not None:
                return self.base.fn(self.base.seq.at(j))[1]
        return NO

    def contains(self, k):
        return self.find(k) is not NO

    def __getitem__(self, k):
        v = self.find(k)
        if v is NO:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = self.find(k)
        return default if v is NO else v

    def set(self, k, v):
        for e in self.entries:
            if bool(_eq(e[0], k)):
                if e[1] is NO and self.base is not None:
                    raise Unsupported("order of a key that was deleted and set again")
                e[1] = v
                return
        self.entries.append([k, v])

    def delete(self, k):
        if self.find(k) is NO:
            raise KeyError(k)
        for e in self.entries:
            if bool(_eq(e[0], k)):
                if self.base is None:
                    self.entries.remove(e)
                else:
                    e[1] = NO
                return
        self.entries.append([k, NO])

    def pairs(self):
        if self.base is None:
            return GList([tuple(e) for e in self.entries])
        if self.entries:
            raise Unsupported("iteration over a symbolic dictionary that was changed")
        fn, q = self.base.fn, self.base.seq
        if not self.distinct():
            raise Unsupported("iteration over a dictionary whose keys may coincide")
        r = q.map(fn)
        r.first = self.base.keys_seq
        return r

    def distinct(self):
        return self.base is not None and self.base.distinct

    def items(self):
        return self.pairs()

    def keys(self):
        p = self.pairs()
        if not isinstance(p, SymSeq):
            return GList([k for k, v in p])
        return p.first.derived(kind=list)

    def values(self):
        p = self.pairs()
        return p.map(lambda t: t[1]) if isinstance(p, SymSeq) else GList([v for k, v in p])

    def length(self):
        p = self.pairs()
        return p.length() if isinstance(p, SymSeq) else len(p)

    def __bool__(self):
        return bool(self.pairs())

    def as_list(self):
        return self.keys()

    def as_set(self):
        from .npshim import s_set

        return s_set(self.keys())

    def sorted(self, **k):
        raise Unsupported("sorted() of a symbolic dictionary")

    def enumerate(self, start=0):
        from .npshim import s_enumerate

        return s_enumerate(self.keys(), start)

    def comprehension(self, kind, fn, cond):
        return comprehension(kind, self.keys(), fn, cond)

    def copy(self):
        return SymDict(self.base, self.entries)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        if self.base is not None:
            fn = self.base.fn
            b = SymMap(self.base.seq, lambda t: (lambda k, v: (k, copy.deepcopy(v)))(*fn(t)))
            b.looked = list(self.base.looked)
            b.keys_seq = self.base.keys_seq
        else:
            b = None
        return SymDict(b, [(k, copy.deepcopy(v)) for k, v in self.entries])

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic dictionaries")

    __ne__ = __eq__
    __hash__ = None

    def __repr__(self):
        return "<symbolic dictionary>"


class GDict(dict):
    """A dictionary of the code under verification.  A symbolic loop that sets one key per iteration
    (or a symbolic key) turns it into a symbolic one."""

    __slots__ = ("_vc_pairs", "_vc_sym")
    _real = dict

    def __new__(cls, *a, **k):
        self = dict.__new__(cls)
        object.__setattr__(self, "_vc_pairs", GList())
        object.__setattr__(self, "_vc_sym", None)
        return self

    def __init__(self, *a, **k):
        if len(a) == 1:
            x = desym(a[0])
            if isinstance(x, (SymDict, SymMap)):
                object.__setattr__(self, "_vc_sym", x.copy() if isinstance(x, SymDict) else SymDict(x))
            elif isinstance(x, SymSeq):
                m = SymMap(x.derived(), lambda t: tuple(t))
                m.keys_seq = x.first or next((p for p in (x.parts or ())[:1] if p is not None and p.distinct), None)
                object.__setattr__(self, "_vc_sym", SymDict(m))
            elif isinstance(x, Sym):
                raise Unsupported(f"dict({type(x).__name__})")
            elif hasattr(x, "keys"):
                for q in x.keys():
                    self[q] = x[q]
            else:
                for q, v in x:
                    self[q] = v
        elif a:
            raise TypeError(f"dict expected at most 1 argument, got {len(a)}")
        for q, v in k.items():
            self[q] = v

    def view(self):
        if self._vc_sym is not None:
            return self._vc_sym
        v = self._vc_pairs.view()
        if v is self._vc_pairs:
            return self
        if dict.__len__(self):
            raise Unsupported("dictionary filled by a symbolic loop and before it")
        if self._vc_pairs.sym is None:
            raise Unsupported("use of a dictionary that a symbolic loop is filling")
        src = SymMap(v, lambda t: t)
        q = self._vc_pairs.__dict__.get("keys_of")
        src.keys_seq = q or None
        object.__setattr__(self, "_vc_sym", SymDict(src))
        return self._vc_sym

    def _symbolic(self, k=None):
        """the symbolic dictionary, or None"""
        v = self.view()
        if v is not self:
            return v
        if is_sym(k) or isinstance(k, Sym) or (isinstance(k, tuple) and any(is_sym(x) or isinstance(x, Sym) for x in k)):
            s = SymDict(None, dict.items(self))
            return s
        return None

    def __setitem__(self, k, v):
        p = self._vc_pairs
        a = p._shared()
        if a is not None:
            if self._vc_sym is not None or dict.__len__(self):
                raise Unsupported("write to a dictionary in a symbolic loop")
            it = a.it
            ks = keys_seq(it, it.at(a.index), k) if it is not None and a.index is not None else None
            p.append((k, v))
            bad = ctx().engine.__dict__.setdefault("bad_keys", set())
            if (a.fn, a.line) in bad:
                ks = None
            elif ks is None or p.__dict__.get("keys_of", ks) is not ks:
                bad.add((a.fn, a.line))  # some iteration sets another key than that of its element
                raise Restart()
            p.__dict__["keys_of"] = ks
            return
        s = self._symbolic(k)
        if s is None:
            dict.__setitem__(self, k, v)
            return
        s.set(k, v)
        self._keep(s)

    def _keep(self, s):
        if self._vc_sym is not s:
            object.__setattr__(self, "_vc_sym", s)
            dict.clear(self)

    def __delitem__(self, k):
        if self._vc_pairs._shared() is not None:
            raise Unsupported("deletion in a symbolic loop")
        s = self._symbolic(k)
        if s is None:
            dict.__delitem__(self, k)
            return
        s.delete(k)
        self._keep(s)

    def __getitem__(self, k):
        s = self._symbolic(k)
        return dict.__getitem__(self, k) if s is None else s[k]

    def get(self, k, default=None):
        s = self._symbolic(k)
        return dict.get(self, k, default) if s is None else s.get(k, default)

    def __contains__(self, k):
        s = self._symbolic(k)
        return dict.__contains__(self, k) if s is None else bool(s.contains(k))

    def __iter__(self):
        v = self.view()
        if v is self:
            return dict.__iter__(self)
        return iter(v.keys())

    def __len__(self):
        v = self.view()
        if v is self:
            return dict.__len__(self)
        n = v.length()
        if is_sym(n):
            raise Unsupported("len() of a symbolic dictionary by foreign code")
        return n

    def __bool__(self):
        v = self.view()
        return dict.__len__(self) > 0 if v is self else bool(v)

    def keys(self):
        v = self.view()
        return dict.keys(self) if v is self else v.keys()

    def values(self):
        v = self.view()
        return dict.values(self) if v is self else v.values()

    def items(self):
        v = self.view()
        return dict.items(self) if v is self else v.items()

    def copy(self):
        v = self.view()
        if v is self:
            return GDict(dict.items(self))
        r = GDict()
        r._keep(v.copy())
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        r = GDict.__new__(type(self))
        v = self.view()
        if v is self:
            for k, x in dict.items(self):
                dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(x, memo))
        else:
            r._keep(copy.deepcopy(v, memo))
        return r

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            GDict.__delitem__(self, k)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k not in self:
            GDict.__setitem__(self, k, d)
        return self[k]

    def update(self, *a, **k):
        for k, v in GDict(*a, **k).items():
            GDict.__setitem__(self, k, v)

    def clear(self):
        if self._vc_pairs._shared() is not None:
            raise Unsupported("clear in a symbolic loop")
        dict.clear(self)
        object.__setattr__(self, "_vc_pairs", GList())
        object.__setattr__(self, "_vc_sym", None)

    def __eq__(self, o):
        a, b = self.view(), desym(o)
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported("comparison of symbolic dictionaries")
        return dict.__eq__(self, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def _un(name):
        f = getattr(dict, name)

        def g(self, *a, **k):
            if self.view() is not self or self._vc_pairs._shared() is not None:
                raise Unsupported(f"dict.{name} of a symbolic dictionary")
            return f(self, *a, **k)

        return g

    for _n in ("popitem", "__or__", "__ior__", "__ror__", "__reversed__"):
        locals()[_n] = _un(_n)
    del _n, _un

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = cls()
        for k in ks:
            GDict.__setitem__(r, k, v)
        return r


def keys_seq(it, el, k):
    """the sequence of pairwise different keys, if k is the key of the element el of `it`"""
    if it.distinct and el is k:
        return it
    if it.first is not None and isinstance(el, tuple) and el and el[0] is k:
        return it.first
    if it.parts is not None and isinstance(el, tuple):
        for x, p in zip(el, it.parts):
            if x is k and isinstance(p, SymSeq) and p.distinct:
                return p
    return None


def new_dict(d):
    return GDict(d)


class SmallSet(Sym):
    """set of a few symbolic values (equalities are decided when elements are added)"""

    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    def add(self, x):
        for y in self.xs:
            if bool(_eq(x, y)):
                return
        self.xs.append(x)

    def isinstance(self, t):
        return t is set

    def length(self):
        return len(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def contains(self, x):
        return contains(x, self.xs)

    def as_list(self):
        return GList(self.xs)

    def as_set(self):
        return SmallSet(self.xs)

    def sorted(self, **k):
        raise Unsupported("sorted() of a set of symbolic values")

    def comprehension(self, kind, fn, cond):
        return comprehension(kind, list(self.xs), fn, cond)

    def loop(self, fn, line, assigned):
        return Loop(fn, line, assigned, list(self.xs))


def zip_arrays(f, *xs):
    """f of corresponding rows; arrays without the symbolic axis are broadcast"""
    seqs = [x for x in xs if isinstance(x, SymSeq)]
    n = seqs[0].n
    for q in seqs[1:]:
        if not ctx().lra_unsat(q.n != n):
            raise Unsupported("arrays of different symbolic lengths")
    rank = max(len(q.shape_tail or ()) for q in seqs)
    rs = []
    for x in xs:
        if isinstance(x, SymSeq):
            rs.append(x.reader())
        else:
            from .npshim import obj

            a = obj(x)
            if a.ndim > rank:
                raise Unsupported("broadcast of an array along a symbolic axis")
            rs.append(None)
    return SymSeq(n, lambda i: f(*[r(i) if r else x for r, x in zip(rs, xs)]), kind=np.ndarray, shape=seqs[0].shape_tail, ghosts=seqs[0]._ghosts)


# ------------------------------------------------------------------------------- comprehensions
def comprehension(kind, it, fn, cond):
    if isinstance(it, Guarded) and it.items is not None and kind == "list":
        g = it.again(fn, cond)
        if g is not None:
            return g
    it = desym(it)
    if isinstance(it, Sym):
        return it.comprehension(kind, fn, cond) if hasattr(it, "comprehension") else _sym_comp(kind, it, fn, cond)
    if isinstance(it, (SReal, SBool)):
        raise TypeError("object is not iterable")
    if kind == "list":
        if cond is not None and sym.CUR is not None and not isinstance(it, GList):
            it = list(it)
            cs = [cond(x) for x in it]
            if sum(isinstance(q, SBool) for q in cs) > 3:
                return Guarded([(q, x) for q, x in zip(cs, it) if isinstance(q, SBool) or q], fn)
            return GList([fn(x) for q, x in zip(cs, it) if q])
        return GList([fn(x) for x in it if cond is None or cond(x)])
    if kind == "set":
        from .npshim import s_set

        return s_set([fn(x) for x in it if cond is None or cond(x)])
    if kind == "dict":
        return GDict(fn(x) for x in it if cond is None or cond(x))
    return (fn(x) for x in it if cond is None or cond(x))


def _sym_comp(kind, it, fn, cond):
    if cond is not None and isinstance(it, SymSeq) and kind in ("list", "gen"):
        return Filtered(it, fn, cond)
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    if not isinstance(it, SymSeq):
        raise Unsupported("comprehension over " + repr(it))
    c = ctx()
    if kind == "dict":
        m = SymMap(it.derived(), fn)
        if (it.distinct or it.first is not None or it.parts is not None) and c.decide(it.n > 0):
            el = it.at(z3.IntVal(0))  # what the expression takes as the key does not depend on the index
            m.keys_seq = ks = keys_seq(it, el, fn(el)[0])
            if ks is not None:

                def checked(el):
                    r = fn(el)
                    if keys_seq(it, el, r[0]) is not ks:
                        raise Unsupported("keys of a comprehension")
                    return r

                m.fn = checked
        r = GDict()
        object.__setattr__(r, "_vc_sym", SymDict(m))
        return r
    if not c.decide(it.n > 0):
        return SymSeq(0, lambda i: None, kind=set if kind == "set" else list) if kind != "set" else set()
    # some element at which the expression raises, or none
    if c.choose(2) == 0:
        w = some_index(c)
        c.assume(z3.And(w >= 0, w < it.n))
        fn(it.at(w))
        raise PathEnd()
    rd = it.reader()

    def at(i):
        try:
            return fn(rd(i))
        except (PathEnd, Unsupported):
            raise
        except Exception:
            raise PathEnd()  # no element raises on this path

    r = SymSeq(it.n, at, kind=list, name=it.name, ghosts=it._ghosts)
    for g in r.ghosts():
        if c.decide(z3.And(g >= 0, g < r.n)):
            r.at(g)
    return SymSet(r) if kind == "set" else r


class Filtered(Sym):
    """[fn(x) for x in sequence if cond(x)], of which only some things are known: whether it is
    empty, some element, its text"""

    def __init__(self, it, fn, cond):
        self.it, self.fn, self.cond = it, fn, cond
        self.some = None  # decided: is there an element?
        self.w = None
        c = ctx()
        # some element at which the expressions raise, or none
        if c.decide(it.n > 0) and c.choose(2) == 0:
            w = some_index(c)
            c.assume(z3.And(w >= 0, w < it.n))
            x = it.at(w)
            if bool(cond(x)):
                fn(x)
            raise PathEnd()

    def isinstance(self, t):
        return t is list

    def _cond(self, x):
        try:
            return mkbool(zbool(_truth(self.cond(x))))
        except (PathEnd, Unsupported):
            raise
        except Exception:
            raise PathEnd()

    def __bool__(self):
        if self.some is None:
            c = ctx()
            if c.choose(2) == 0:
                self.w = w = some_index(c)
                c.assume(z3.And(w >= 0, w < self.it.n))
                c.assume(zbool(self._cond(self.it.at(w))))
                self.some = True
            else:
                for g in self.it.ghosts():
                    c.assume(z3.Implies(z3.And(g >= 0, g < self.it.n), z3.Not(zbool(self._cond(self.it.at(g))))))
                self.some = False
        return self.some

    def length(self):
        if not bool(self):
            return 0
        c = ctx()
        m = c.fresh("kept", "int")
        c.assume(z3.And(m >= 1, m <= self.it.n))
        return num(m)

    def any(self):
        it, fn = self.it.reader(), self.fn
        n = self.it.n
        return SymSeq(n, lambda i: (lambda x: fn(x) if self._cond(x) else False)(it(i)), ghosts=self.it._ghosts).any()

    def all(self):
        it, fn = self.it.reader(), self.fn
        n = self.it.n
        return SymSeq(n, lambda i: (lambda x: fn(x) if self._cond(x) else True)(it(i)), ghosts=self.it._ghosts).all()

    def as_list(self):
        return self

    def __repr__(self):
        return "<symbolic list>"


def contains(x, xs):
    """x in xs"""
    xs = desym(xs)
    if isinstance(xs, Sym):
        return xs.contains(x)
    if isinstance(x, Sym) and hasattr(x, "isin"):
        return x.isin(xs)
    if isinstance(xs, (list, tuple, set, frozenset, range)) and (is_sym(x) or any(is_sym(i) for i in xs)):
        return mkbool(z3.Or([zbool(_eq(x, i)) for i in xs])) if len(xs) else False
    return x in xs


def _eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return mkbool(z3.And([zbool(_eq(x, y)) for x, y in zip(a, b)])) if len(a) == len(b) else False
    r = a == b
    return r if isinstance(r, (SBool, bool, np.bool_)) else False


def not_contains(x, xs):
    r = contains(x, xs)
    if isinstance(r, SBool):
        return mkbool(z3.Not(r.e))
    return not r


# ------------------------------------------------------------------------------- growing lists
def _active():
    """the symbolic loops around, innermost first"""
    c = sym.CUR
    a = c.loops.get("active") if c is not None else None
    while a is not None:
        yield a
        a = a.outer


class GList(list):
    """A list of the code under verification.  A symbolic loop that appends one element per
    iteration turns it into a symbolic sequence."""

    def __init__(self, *a):
        super().__init__(*a)
        self.sym = None
        self.loop = None
        self.birth = [(a, a.serial) for a in _active()]
        f = sys._getframe(1)
        while f.f_back is not None and "/pyvc/" in f.f_code.co_filename:
            f = f.f_back
        self.site = (f.f_code.co_filename, f.f_lineno)

    def _shared(self):
        """the innermost symbolic loop, if this list is older than its present iteration"""
        a = next(iter(_active()), None)
        return a if a is not None and (a, a.serial) not in self.birth else None

    def _filled(self):
        """the symbolic loop that is known to append to this list (from an earlier run of the harness)"""
        c = sym.CUR
        if c is None:
            return None
        for a in _active():
            if (a, a.serial) in self.birth:
                break
            if (a.fn, a.line, self.site) in c.engine.__dict__.get("filled", ()):
                a.partials[id(self)] = self
                return a
            a.reads[id(self)] = self
        return None

    def append(self, v):
        a = self._shared()
        if a is not None:
            a.note_append(self, v)
        elif self.sym is not None:
            self.sym = sym_concat(self.sym, [v])
        elif self.loop is not None:
            raise Unsupported("append to a list after leaving the loop that fills it")
        else:
            list.append(self, v)

    def extend(self, vs):
        vs = desym(vs)
        if isinstance(vs, Sym) or self._shared() is not None or self.sym is not None or self.loop is not None:
            if self._shared() is not None:
                raise Unsupported("extend in a symbolic loop")
            self.sym = sym_concat(self, vs)
        else:
            list.extend(self, vs)

    def view(self):
        if self.sym is not None:
            return self.sym
        if self.loop is not None:
            return self.loop.partial(self)
        a = self._filled()
        if a is not None:
            return a.partial(self)
        return self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(self.view(), Sym) or isinstance(desym(o), Sym):
            return sym_concat(self, o)
        return GList(list.__add__(self, o))

    def _plain(self):
        if self.sym is not None or self.loop is not None or self._filled() is not None:
            raise Unsupported("operation on a list that a symbolic loop has filled")

    def __len__(self):
        self._plain()
        return list.__len__(self)

    def __iter__(self):
        self._plain()
        return list.__iter__(self)

    def __bool__(self):
        v = self.view()
        return bool(v) if v is not self else list.__len__(self) > 0

    def __getitem__(self, i):
        v = self.view()
        if v is not self:
            return v[i]
        if isinstance(i, SReal):
            e = zint(i)
            return _concrete_index(list(self), e)
        r = list.__getitem__(self, i)
        return GList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, x):
        self._plain()
        if self._shared() is not None:
            raise Unsupported("write to a list in a symbolic loop")
        list.__setitem__(self, i, x)

    def _guarded(name):
        f = getattr(list, name)

        def g(self, *a, **k):
            self._plain()
            if self._shared() is not None:
                raise Unsupported(f"list.{name} in a symbolic loop")
            return f(self, *a, **k)

        return g

    for _n in ("insert", "remove", "pop", "clear", "sort", "reverse", "__delitem__", "__imul__"):
        locals()[_n] = _guarded(_n)
    del _n, _guarded

    def __eq__(self, o):
        a, b = self.view(), desym(o)
        if isinstance(a, Sym):
            return a == b
        if isinstance(b, Sym):
            return b == a
        return list.__eq__(self, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        v = self.view()
        return v.copy() if v is not self else GList(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        v = self.view()
        return v.deepcopy() if v is not self else GList([copy.deepcopy(x, memo) for x in list.__iter__(self)])


def new_list(xs):
    return GList(xs)


class Guarded(GList):
    """[fn(x) for x in a concrete list if cond(x)] with conditions that are decided when they are
    needed"""

    def __init__(self, items, fn):
        super().__init__()
        self.items, self.fn = items, fn  # [(condition, x)]

    def resolve(self):
        if self.items is not None:
            items, self.items = self.items, None
            for q, x in items:
                if bool(q):
                    list.append(self, self.fn(x))
        return self

    def view(self):
        self.resolve()
        return GList.view(self)

    def _plain(self):
        self.resolve()
        GList._plain(self)

    def append(self, v):
        self.resolve()
        GList.append(self, v)

    def extend(self, vs):
        self.resolve()
        GList.extend(self, vs)

    def __bool__(self):
        if self.items is None:
            return GList.__bool__(self)
        return bool(mkbool(z3.Or([zbool(q) for q, _ in self.items])))

    def __getitem__(self, i):
        if self.items is not None and type(i) is int and i in (0, -1):
            for q, x in self.items if i == 0 else reversed(self.items):
                if bool(q):
                    return self.fn(x)
            raise IndexError("list index out of range")
        self.resolve()
        return GList.__getitem__(self, i)

    def length(self):
        if self.items is None:
            return len(self)
        return num(z3.Sum([z3.If(zbool(q), z3.IntVal(1), z3.IntVal(0)) for q, _ in self.items]))

    def again(self, fn, cond):
        """[fn(x) for x in self if cond(x)], if that can be said without deciding the conditions"""
        items = []
        for q, x in self.items:
            if not isinstance(x, (str, int, float)):
                return None
            try:
                y = self.fn(x)
                if not isinstance(y, (str, int, float)):
                    return None
                p = True if cond is None else cond(y)
            except (PathEnd, Unsupported):
                raise
            except Exception:
                return None
            if not isinstance(p, (bool, SBool)):
                p = bool(p)
            if p is not False:
                items.append((q if p is True else mkbool(z3.And(zbool(q), zbool(p))), y))
        return Guarded(items, fn)

    def text(self):
        return None if self.items is None else "guarded" + str([(zbool(q).sexpr(), _text(x)) for q, x in self.items])


# ------------------------------------------------------------------------------- loops
def _state(loc):
    """printable state of the local variables, or None if it can not be compared"""
    out = []
    for k in sorted(loc):
        if k.startswith("__v"):
            continue
        t = _text(loc[k])
        if t is None:
            return None
        out.append((k, t))
    return tuple(out)


def _text(v):
    if v is None or isinstance(v, (str, int, float, bool)):
        return repr(v)
    if isinstance(v, (SReal, SBool, SymStr)):
        return v.e.sexpr()
    if isinstance(v, Guarded) and v.items is not None:
        return v.text()
    if isinstance(v, (list, tuple)) and not (isinstance(v, GList) and (v.sym is not None or v.loop is not None)):
        ts = [_text(x) for x in (list.__iter__(v) if isinstance(v, list) else v)]
        return None if None in ts else type(v).__name__ + str(ts)
    if isinstance(v, type(sys)) or callable(v):
        return getattr(v, "__name__", "callable")
    return None


class Loop:
    """An ordinary loop."""

    def __init__(self, fn, line, assigned, it):
        self.fn, self.line = fn, line
        self.it = iter(it) if it is not NO else None
        self.done = False
        self.nxt = None
        self.count = 0

    def enter(self, loc):
        self.count += 1
        if self.it is None and self.count > 2000:
            raise Unsupported("loop without an invariant does not end")
        c = sym.CUR
        if c is not None and c.merge_base is not None and self.count > 1:
            k = _state(loc)
            if k is not None:
                c.merge((self.line, self.count), (self.fn, self.line, self.count, k))

    def rebinds(self, name):
        return False

    unbinds = after_rebinds = rebinds_after_test = rebinds

    def more(self):
        if self.it is None:
            return True
        try:
            self.nxt = next(self.it)
            return True
        except StopIteration:
            return False

    def item(self):
        return self.nxt

    def test(self, cond):
        c = sym.CUR
        cond = cond() if callable(cond) else cond
        if isinstance(cond, SBool) and c is not None and c.engine.cut_whiles:
            # the number of iterations is not known: cut the loop (run the harness again)
            n = len(c.trace)
            r = bool(cond)
            if len(c.trace) > n and not c.trace[n][1]:
                c.engine.__dict__.setdefault("cuts", set()).add((self.fn, self.line))
                raise Restart()
            return r
        return bool(cond)

    def exhausted(self):
        self.done = True

    def was_exhausted(self):
        return self.done

    def leave(self):
        pass


def _occurs(t, e):
    return z3.eq(t, e) or any(_occurs(t, x) for x in e.children())


class GuardedLoop(Loop):
    """A loop over a Guarded list: its elements, each if its condition holds."""

    def __init__(self, fn, line, assigned, g):
        super().__init__(fn, line, assigned, [])
        self.g, self.k, self.state = g, 0, None

    def enter(self, loc):
        c = sym.CUR
        self.state = _state(loc) if c is not None and c.merge_base is not None else None

    def more(self):
        c = sym.CUR
        while self.k < len(self.g.items):
            if self.state is not None and self.k:
                c.merge((self.line, self.k), (self.fn, self.line, self.k, self.state))
            q, x = self.g.items[self.k]
            self.k += 1
            if bool(q):
                self.nxt = self.g.fn(x)
                return True
        return False


class Unknown:
    """invariant of a while loop of which nothing is given: the variables it assigns are unknown
    numbers of the same sort; a number that does not decrease (increase) is bounded by its start; a
    text made of a number that the loop assigns stays made of it, if that is preserved"""

    def __init__(self, fn, line, assigned):
        self.assigned = assigned
        self.key = (fn, line)

    def havoc(self, before, i):
        c = ctx()
        self.alive = c.engine.__dict__.setdefault("unknowns", {})
        out = {}
        self.v0 = {}
        for k in self.assigned:
            v = before.get(k)
            if isinstance(v, bool) or not isinstance(v, (SReal, int, float)):
                continue
            isint = isinstance(v, int) or (isinstance(v, SReal) and v.e.is_int())
            x = c.fresh(k, "int" if isint else "real")
            if not isint:
                c.ring.atom_key(x)
            self.v0[k] = v
            out[k] = SReal(x)
            for b in self.alive.setdefault((self.key, k), ["up", "down"])[:1]:
                c.assume(out[k] >= v if b == "up" else out[k] <= v)
        self.texts = {}
        for k in self.assigned:
            v = before.get(k)
            if type(v) is not SymStr:
                continue
            for n in self.alive.setdefault((self.key, k), ["*" + n for n in self.v0] + [""])[:1]:
                n = n[1:]
                e0 = znum(self.v0[n]) if n else None
                if n and e0.is_int() and _occurs(e0, v.e):
                    self.texts[k] = v.e, n, e0
                    out[k] = SymStr(z3.substitute(v.e, (e0, znum(out[n]))))
                elif n:
                    self.alive[self.key, k].pop(0)
                    raise Restart()
                else:
                    out[k] = SymStr(z3.FreshConst(z3.StringSort(), k))
        self.val = out
        return out

    def formula(self, loc, i):
        return []

    def check(self, loc):
        """at the end of an iteration"""
        c = ctx()
        for k, v in self.val.items():
            new = loc.get(k)
            if isinstance(v, SymStr):
                if not isinstance(new, (SymStr, str)):
                    raise Unsupported(f"variable {k} of a while loop changes its kind")
                if k in self.texts:
                    e, n, e0 = self.texts[k]
                    want = z3.substitute(e, (e0, znum(loc[n])))
                    if not c.engine.quiet(c, SymStr(v._str(new)).e == want):
                        self.alive[self.key, k].pop(0)
                        raise Restart()
                continue
            if isinstance(new, bool) or not isinstance(new, (SReal, int, float)) or (v.e.is_int() and not znum(new).is_int()):
                raise Unsupported(f"variable {k} of a while loop changes its kind")
            al = self.alive[self.key, k]
            if al and not c.engine.quiet(c, zbool(new >= self.v0[k] if al[0] == "up" else new <= self.v0[k])):
                al.pop(0)
                raise Restart()


class Fold:
    """Candidate invariants of a variable of a loop over a sequence, found without a hint: its value
    is the smallest (largest) of its initial value and of the elements passed.  Candidates that are
    not preserved are dropped (the harness is run again); those that remain are proved."""

    ALL = ("lower", "upper")

    def __init__(self, loop, name):
        self.loop, self.name = loop, name
        self.key = (loop.fn, loop.line, name)
        c = ctx()
        self.alive = c.engine.__dict__.setdefault("folds", {}).setdefault(self.key, list(self.ALL))
        v = loop.before.get(name)
        self.v0 = np.asarray(v, dtype=object) if isinstance(v, (np.ndarray, SReal, int, float)) and not isinstance(v, bool) else None
        self.ok = bool(self.alive) and self.v0 is not None and loop.inv is None and loop.it is not None and all(
            isinstance(x, (SReal, int, float, np.number)) for x in self.v0.flat
        )

    def el(self, i):
        try:
            e = np.asarray(desym(self.loop.it.at(i)), dtype=object)
        except Exception:
            return None
        return e if e.shape == self.v0.shape and all(isinstance(x, (SReal, int, float, np.number)) for x in e.flat) else None

    def havoc(self, i):
        """the value at the head of iteration i"""
        c = ctx()
        lower = self.alive[0] == "lower"
        self.val = np.empty(self.v0.shape, dtype=object)
        self.wit = {}
        for k in np.ndindex(self.v0.shape):
            v, w = c.fresh("fold"), c.fresh("arg", "int")
            c.ring.atom_key(v)
            self.val[k] = SReal(v)
            b = zreal(self.v0[k])
            c.assume(v <= b if lower else v >= b)
            e = self.el(w)
            if e is None:
                return None
            c.assume(z3.Or(v == b, z3.And(w >= 0, w < i, v == zreal(e[k]))))
            self.wit[k] = w
            for g in self.loop.it.ghosts():
                x = zreal(self.el(g)[k])
                c.assume(z3.Implies(z3.And(g >= 0, g < i, g < self.loop.it.n), v <= x if lower else v >= x))
        return self.val[()] if self.v0.shape == () else self.val.copy()

    def complete(self):
        """all elements, also those looked at later"""
        lower = self.alive[0] == "lower"
        val = self.val

        def ax(i, el):
            el = np.asarray(el, dtype=object)
            return z3.And([zreal(val[k]) <= zreal(el[k]) if lower else zreal(val[k]) >= zreal(el[k]) for k in np.ndindex(val.shape)])

        self.loop.it.add_axiom(ax)

    def preserved(self, new, i):
        c = ctx()
        new = np.asarray(new, dtype=object)
        if new.shape != self.v0.shape or not all(isinstance(x, (SReal, int, float, np.number)) for x in new.flat):
            return False
        lower = self.alive[0] == "lower"
        e = self.el(i)
        fs = []
        for k in np.ndindex(new.shape):
            x, b, v = zreal(new[k]), zreal(self.v0[k]), zreal(self.val[k])
            fs.append(x <= b if lower else x >= b)
            fs.append(z3.Or(x == v, x == zreal(e[k])))
            fs.append(x <= zreal(e[k]) if lower else x >= zreal(e[k]))
            fs.append(x <= v if lower else x >= v)
        f = z3.And(fs)
        return c.engine.quiet(c, f)


class Counter:
    """Candidate invariant of an integer variable: it grows by a constant in every iteration.  The
    candidate is dropped if it is not preserved (the harness is run again)."""

    STEPS = (1, -1, 2, 3)

    def __init__(self, loop, name):
        self.loop, self.name = loop, name
        c = ctx()
        self.alive = c.engine.__dict__.setdefault("counters", {}).setdefault((loop.fn, loop.line, name), list(self.STEPS))
        v = loop.before.get(name)
        self.v0 = v
        self.ok = bool(self.alive) and loop.inv is None and loop.it is not None and not isinstance(v, bool) and (isinstance(v, int) or (isinstance(v, SReal) and v.e.is_int()))

    def at(self, i):
        return num(z3.simplify(zint(self.v0) + self.alive[0] * i))

    havoc = at

    def complete(self):
        pass

    def preserved(self, new, i):
        if isinstance(new, bool) or not (isinstance(new, int) or (isinstance(new, SReal) and new.e.is_int())):
            return False
        c = ctx()
        want = self.at(i + 1)
        d = z3.simplify(zint(new) - want.e)
        if z3.is_int_value(d):
            return d.as_long() == 0
        return c.engine.quiet(c, d == 0)


def selection(v, el, i):
    """how v is selected from the element el of the iteration i, if it is (values that cannot be changed)"""
    if isinstance(v, tuple):
        out = tuple(selection(x, el, i) for x in v)
        return None if None in out else out
    if type(v) in (int, str, bool, type(None)):
        return "constant", v, type(v)
    if isinstance(v, (SReal, SBool, SymStr)):
        if v is el:
            return "element"
        if isinstance(v, SReal) and z3.eq(z3.simplify(v.e), z3.simplify(zint(i))):
            return "index"
        if isinstance(el, tuple):
            return next((("part", a) for a, x in enumerate(el) if x is v), None)
    return None


def select(how, el, i):
    if how == "element":
        return el
    if how == "index":
        return num(i)
    if how[0] == "part":
        return el[how[1]]
    if how[0] == "constant":
        return how[1]
    return tuple(select(x, el, i) for x in how)


class SymLoop:
    """A loop over a symbolic sequence, or a while loop with an invariant."""

    SERIAL = [0]

    def __init__(self, fn, line, assigned, it, inv=None, stores=True):
        self.fn, self.line, self.assigned = fn, line, assigned
        self.it = it if it is not NO else None
        self.inv = inv
        self.stores = stores
        self.phase = "start"
        self.done = False
        self.index = None
        self.havoc = {}
        self.lists = {}  # id -> (list, {key of the index: value})
        self.now = {}  # appended in the present iteration
        self.folds = {}
        self.serial = None
        self.empty = False
        self.reads, self.partials = {}, {}

    # every visit of the head of the loop
    def enter(self, loc):
        c = ctx()
        if self.phase == "start":
            self.outer = c.loops.get("active")
            self.before = dict(loc)
            if self.inv is not None:
                self.prove_inv(loc, z3.IntVal(0), "holds at the start")
            else:
                for name in self.assigned:
                    if name in loc:
                        f = Counter(self, name)
                        f = f if f.ok else Fold(self, name)
                        if f.ok:
                            self.folds[name] = f
            if self.it is not None and not c.decide(self.it.n > 0):
                self.phase, self.empty = "over", True
                return
            if c.choose(2) == 0:
                self.phase = "iteration"
                i = some_index(c)
                c.assume(i >= 0)
                if self.it is not None:
                    c.assume(i < self.it.n)
                self.start_iteration(i)
            else:
                self.phase = "completion"
                self.ghosts = self.order(self.it.ghosts()) if self.it is not None else []
                self.next_ghost()
            return
        if self.phase == "iteration":
            self.end_iteration(loc, final=True)
            raise PathEnd()
        if self.phase == "completion":
            self.end_iteration(loc, final=False)
            self.next_ghost()
            return
        raise Unsupported("loop entered again")

    def order(self, gs):
        """the different indices among gs that are in range, ascending; at least one"""
        c = ctx()
        n = self.it.n
        out = []
        for g in gs:
            if not c.decide(z3.And(g >= 0, g < n)):
                continue
            pos = len(out)
            for k, h in enumerate(out):
                if z3.eq(z3.simplify(g), z3.simplify(h)) or c.decide(g == h):
                    pos = None
                    break
                if c.decide(g < h):
                    pos = k
                    break
            if pos is not None:
                out.insert(pos, g)
        if not out:
            p = some_index(c)
            c.assume(z3.And(p >= 0, p < n))
            out = [p]
        return out

    def next_ghost(self):
        c = ctx()
        if self.it is not None and self.ghosts:
            self.start_iteration(self.ghosts.pop(0))
            return
        self.phase = "over"
        c.loops["active"] = self.outer
        self.set_havoc(self.it.n if self.it is not None else c.fresh("i", "int"))
        for f in self.folds.values():
            if f.name in self.havoc:
                f.complete()
        for l, vals in self.lists.values():
            self.close(l, vals)
        if self.stores and self.it is not None:
            for q in c.loops.get("seqs", {}).values():
                if q.changed() or id(q) in getattr(self, "touched", ()):
                    q.only = set(q.memo) if q.only is None else q.only

    def close(self, l, vals):
        pre = list(list.__iter__(l)) if l.sym is None else l.sym
        n0 = z3.IntVal(len(pre)) if isinstance(pre, list) else pre.n
        terms = dict(self.terms)
        it, how = self.it, ctx().engine.__dict__.get("selections", {}).get((self.fn, self.line, l.site))

        def at(i):
            c = ctx()
            if (not isinstance(pre, list) or pre) and c.decide(i < n0):
                return pre.at(i) if isinstance(pre, SymSeq) else _concrete_index(pre, i)
            t = z3.simplify(i - n0)
            k = t.sexpr()
            if k in vals:
                return vals[k]
            for k2, t2 in terms.items():
                if k2 in vals and c.decide(t == t2):
                    return vals[k2]
            if how:
                # every iteration appends the same parts of its element (checked in the iterations)
                return select(how, it.at(t), t)
            not_followed(t)

        gh = lambda: [z3.simplify(t + n0) for t in terms.values()]
        if how and not isinstance(pre, SymSeq) and not pre and "keys_of" in l.__dict__:
            rd = it.reader()
            l.sym = SymSeq(it.n, lambda i: select(how, rd(i), i), name="accumulated pairs", ghosts=it._ghosts)
            l.sym.unique_source, l.sym._root, l.loop = it.unique_source, it.root, None
            return
        l.sym = SymSeq(z3.simplify(n0 + self.it.n), at, name="accumulated list", ghosts=gh)
        l.loop = None

    def partial(self, l):
        """content of a list inside of (or after leaving) the loop that fills it"""
        vals = self.lists.get(id(l), (l, {}))[1]
        cur = self.now.get(id(l))
        n0 = list.__len__(l)
        loop = self
        if l.sym is not None:
            raise Unsupported("list filled by two loops")
        extra = len(cur[1]) if cur else 0

        class Partial(SymSeq):
            def contains(s, x):
                c = ctx()
                b = c.fresh("in", "bool")
                for y in list(list.__iter__(l)) + (cur[1] if cur else []):
                    c.fact(z3.Implies(zbool(_eq(x, y)), b))
                for k, v in vals.items():
                    c.fact(z3.Implies(z3.And(loop.terms[k] < loop.index, zbool(_eq(x, v))), b))
                return mkbool(b)

        def at(i):
            t = z3.simplify(i - n0 - loop.index)
            if extra and z3.is_int_value(t) and 0 <= t.as_long() < extra:
                return cur[1][t.as_long()]
            raise Unsupported("element of a list that is being filled")

        return Partial(z3.simplify(n0 + self.index + extra), at, name="list being filled")

    def note_append(self, l, v):
        if self.phase not in ("iteration", "completion") or self.it is None:
            raise Unsupported("append in a loop that is not over a sequence")
        if l.loop is not None and l.loop is not self:
            raise Unsupported("append to a list of another loop")
        if id(l) in self.reads and id(l) not in self.partials:
            # it was taken for a list that does not change in the loop: run the harness again
            ctx().engine.__dict__.setdefault("filled", set()).add((self.fn, self.line, l.site))
            raise Restart()
        l.loop = self
        self.now.setdefault(id(l), (l, []))[1].append(v)

    def set_havoc(self, i):
        c = ctx()
        self.havoc = {}
        if self.inv is not None:
            self.havoc = dict(self.inv.havoc(self.before, num(i)) or {})
            f = self.inv.formula({**self.before, **self.havoc}, num(i))
            for x in f:
                c.assume(x[1])
        for name, f in self.folds.items():
            v = f.havoc(i)
            if v is not None:
                self.havoc[name] = v

    def start_iteration(self, i):
        c = ctx()
        self.index = i
        self.SERIAL[0] += 1
        self.serial = self.SERIAL[0]
        self.now = {}
        self.reads, self.partials = {}, {}
        self.terms = getattr(self, "terms", {})
        self.terms[z3.simplify(i).sexpr()] = i
        c.loops["active"] = self
        self.seen = {id(q): (q, set(q.changed())) for q in c.loops.get("seqs", {}).values()}
        self.set_havoc(i)

    def end_iteration(self, loc, final):
        c = ctx()
        c.loops["active"] = self.outer
        key = z3.simplify(self.index).sexpr()
        # lists
        for k in self.partials:
            if k not in self.now:
                raise Unsupported("a list that is not filled by the loop was taken for one that is")
        for l, new in self.now.values():
            if len(new) != 1:
                raise Unsupported("not exactly one element appended per iteration")
            if self.outer is not None and (self.outer, self.outer.serial) not in l.birth:
                raise Unsupported("list filled by nested loops")
            if self.it is not None:
                known = c.engine.__dict__.setdefault("selections", {})
                how, place = selection(new[0], self.it.at(self.index), self.index), (self.fn, self.line, l.site)
                if known.setdefault(place, how) != how and known[place]:
                    known[place] = None
                    raise Restart()
        if not final:
            if self.lists and {id(l) for l, _ in self.lists.values()} != set(self.now):
                raise Unsupported("lists are not appended to in every iteration")
            if not self.lists and len(self.terms) > 1 and self.now:
                raise Unsupported("lists are not appended to in every iteration")
            for k, (l, new) in self.now.items():
                self.lists.setdefault(k, (l, {}))[1][key] = new[0]
        else:
            c.engine.__dict__.setdefault("appends", {}).setdefault((self.fn, self.line), set()).add(len(self.now))
        # elements of sequences
        self.touched = getattr(self, "touched", set())
        for q in c.loops.get("seqs", {}).values():
            old = self.seen.get(id(q), (q, set()))[1]
            new = set(q.changed()) - old
            for k in new:
                if not self.stores:
                    raise Unsupported("a called function changes elements of a sequence")
                d = z3.simplify(q.terms[k] - self.index)
                if not z3.is_int_value(d):
                    raise Unsupported("change of another element than the one of the iteration")
            if self.stores and any(z3.is_int_value(z3.simplify(t - self.index)) for t in q.terms.values()):
                self.touched.add(id(q))
        # invariants
        if isinstance(self.inv, Unknown):
            self.inv.check(loc)
        elif self.inv is not None and final:
            self.prove_inv(loc, z3.simplify(self.index + 1), "is preserved")
        if final:
            for name, f in self.folds.items():
                if name in self.havoc and not f.preserved(loc.get(name), self.index):
                    f.alive.pop(0)
                    raise Restart()
                if name in self.havoc:
                    c.engine._plain(f"{self.fn}: counter '{name}' grows by {f.alive[0]}" if isinstance(f, Counter) else f"{self.fn}: fold '{name}' ({f.alive[0]} bound, attained) is preserved", "discharged", "").backend = "z3"
            for name in self.assigned:
                if name in self.before and name not in self.havoc and loc.get(name) is self.before[name]:
                    pass

    def prove_inv(self, loc, i, what):
        c = ctx()
        for lab, f in self.inv.formula(loc, num(i)):
            c.engine.obligation(c, zbool(f), f"{self.fn}: loop invariant {what}: {lab}")

    def rebinds(self, name):
        if self.empty:
            return False
        return name in self.havoc or name in self.before

    def unbinds(self, name):
        return False

    def value(self, name):
        if name in self.havoc:
            return self.havoc[name]
        return Poison(f"variable {name} of the loop at line {self.line} of {self.fn}")

    def more(self):
        return self.phase != "over" or self.it is None

    def item(self):
        return self.it.at(self.index)

    def test(self, cond):
        try:
            r = bool(cond() if callable(cond) else cond)
        except Unsupported:
            # the condition needs a value that the invariant does not describe
            if isinstance(self.inv, Unknown) or not callable(cond):
                raise
            ctx().engine.__dict__.setdefault("rotated", set()).add((self.fn, self.line))
            raise Restart()
        if self.phase == "over":
            if r:
                raise PathEnd()
            return False
        if not r:
            raise PathEnd()
        return True

    def exhausted(self):
        self.done = True

    def leave(self):
        """the loop is left in whatever way"""
        c = sym.CUR
        if c is not None and c.loops.get("active") is self:
            c.loops["active"] = self.outer

    def was_exhausted(self):
        return self.done

    def after_rebinds(self, name):
        return self.phase == "over" and not self.empty and self.it is not None

    def after_value(self, name):
        return self.value(name)

    def rebinds_after_test(self, name):
        return False


class RotatedLoop(SymLoop):
    """while c: B  executed as  if c: do B while c.  The invariant is assumed at the start of B, and
    the condition is evaluated on the values that B left."""

    def enter(self, loc):
        if self.phase == "start":
            self.outer = ctx().loops.get("active")
            self.before = dict(loc)
            self.prove_inv(loc, z3.IntVal(0), "holds at the start")
        else:
            self.end_iteration(loc, final=True)

    def rebinds(self, name):
        return False

    def more(self):
        return True

    def test(self, cond):
        r = bool(cond())
        if not r:
            self.phase = "over"
            return False
        if self.phase == "iteration":
            raise PathEnd()  # the invariant is preserved
        self.phase = "iteration"
        c = ctx()
        i = c.fresh("idx", "int")
        c.assume(i >= 0)
        self.start_iteration(i)
        return True

    def rebinds_after_test(self, name):
        return name in self.havoc or name in self.before


NO = object()


def make_loop(fn, line, assigned, it=NO, stores=True):
    c = sym.CUR
    if isinstance(it, Guarded) and it.items is not None and c is not None:
        return GuardedLoop(fn, line, assigned, it)
    it = desym(it)
    if isinstance(it, (SReal, SBool)):
        raise TypeError("object is not iterable")
    if c is None:
        return Loop(fn, line, assigned, it)
    inv = c.engine.__dict__.get("invariants", {}).get(fn)
    if it is NO:
        if inv is not None:
            kind = RotatedLoop if (fn, line) in c.engine.__dict__.get("rotated", ()) else SymLoop
            return kind(fn, line, assigned, it, inv)
        if (fn, line) in c.engine.__dict__.get("cuts", ()):
            return SymLoop(fn, line, assigned, it, Unknown(fn, line, assigned))
        return Loop(fn, line, assigned, it)
    if isinstance(it, Sym):
        if hasattr(it, "loop"):
            return it.loop(fn, line, assigned)
        if isinstance(it, SymSet):
            it = it.as_list()
        if isinstance(it, SymDict):
            it = it.keys()
            if not isinstance(it, SymSeq):
                return Loop(fn, line, assigned, it)
        if not isinstance(it, SymSeq):
            raise Unsupported(f"loop over {type(it).__name__}")
        return SymLoop(fn, line, assigned, it, inv, stores)
    return Loop(fn, line, assigned, it)


# ------------------------------------------------------------------------------- strings
PREDICATES = {}


class SymStr(Sym):
    """An arbitrary string (z3 String term)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def isinstance(self, t):
        return t is str

    def _str(self, o):
        if isinstance(o, SymStr):
            return o.e
        if isinstance(o, str):
            if "<number>" in o:
                raise Unsupported("text of a symbolic number")
            return z3.StringVal(o)
        return None

    def __eq__(self, o):
        o = self._str(o)
        return False if o is None else mkbool(self.e == o)

    def __ne__(self, o):
        o = self._str(o)
        return True if o is None else mkbool(self.e != o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def isin(self, xs):
        if isinstance(xs, str):
            return mkbool(z3.Contains(z3.StringVal(xs), self.e))
        return mkbool(z3.Or([self.e == z3.StringVal(x) for x in xs if isinstance(x, str)]))

    def contains(self, x):
        c = ctx()
        if isinstance(x, str) and c.loops.get("abstract contains"):
            # "x in s" as a predicate of its own for every text x
            k = self.e.get_id(), x
            if k not in PREDICATES:
                b = z3.Bool(f"{x!r} in {self.e.sexpr()}")
                PREDICATES[k] = self.e, b, SBool(b)
            return PREDICATES[k][2]
        return mkbool(z3.Contains(self.e, self._str(x)))

    def length(self):
        return SReal(z3.Length(self.e))

    def __add__(self, o):
        return SymStr(z3.Concat(self.e, self._str(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(self._str(o), self.e))

    def lower(self):
        """str.lower: an arbitrary function, idempotent on itself; equal strings have equal images"""
        c = ctx()
        memo = c.atoms.setdefault(("lower",), [])
        for a, b in memo:
            if z3.eq(a, self.e) or z3.eq(b, self.e):
                return SymStr(b)
        v = z3.Const(f"lower!{len(memo)}", z3.StringSort())
        for a, b in memo:
            c.fact(z3.Implies(a == self.e, b == v))
        memo.append((self.e, v))
        return SymStr(v)

    def startswith(self, o):
        return mkbool(z3.PrefixOf(self._str(o), self.e))

    def __format__(self, spec):
        return "<string>"

    __str__ = __repr__ = lambda self: "<string>"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"str.{k} of a symbolic string")


class Name(SymStr):
    """An arbitrary string without the characters in `free`"""

    __slots__ = ("free",)

    def __init__(self, e, free):
        super().__init__(e)
        self.free = free

    def split(self, sep=None):
        if not isinstance(sep, str) or not free_of(self, sep):
            raise Unsupported("split of a symbolic string")
        return GList([self])


class JoinStr(Sym):
    """sep.join(parts); the parts are at least one and do not contain sep"""

    def __init__(self, sep, parts):
        self.sep, self.parts = sep, parts

    def isinstance(self, t):
        return t is str

    def split(self, sep=None):
        if sep == self.sep:
            n = self.parts.n
            if not ctx().lra_unsat(n <= 0):
                raise Unsupported("split of the empty text")
            if not free_of(self.parts, sep):
                raise Unsupported("split of a text whose parts may contain the separator")
            return self.parts.derived(kind=list)
        if isinstance(sep, str) and free_of(self, sep):
            return GList([self])
        raise Unsupported(f"split of a joined text at {sep!r}")

    def contains(self, x):
        if x == self.sep and free_of(self.parts, x):
            return mkbool(self.parts.n >= 2)
        if isinstance(x, str) and len(x) == 1 and free_of(self, x):
            return False
        raise Unsupported("containment in a joined text")

    def count(self, x):
        if x == self.sep and free_of(self.parts, x):
            return num(self.parts.n - 1)
        raise Unsupported("count in a joined text")

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, str) and o == "":
            return And(mkbool(self.parts.n == 1), self.parts.at(z3.IntVal(0)) == "")
        raise Unsupported("comparison of joined texts")

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __format__(self, spec):
        return "<string>"

    __str__ = __repr__ = lambda self: "<string>"

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"str.{k} of a joined text")


def free_of(x, ch):
    """the text (every text of the sequence: at the ghost indices, which are arbitrary) does not contain ch"""
    x = desym(x)
    if isinstance(x, Name):
        return ch in x.free
    if isinstance(x, str):
        return ch not in x
    if isinstance(x, JoinStr):
        return len(ch) == 1 and ch not in x.sep and free_of(x.parts, ch)
    if isinstance(x, SymSeq):
        gs = x.ghosts()
        return bool(gs) and all(free_of(x.at(g), ch) for g in gs if ctx().decide(z3.And(g >= 0, g < x.n)))
    return False


def join(sep, xs):
    if not isinstance(sep, (str, SymStr)):
        return sep.join(xs)
    xs = desym(xs)
    if isinstance(xs, SymSeq) and isinstance(sep, str):
        if sep != "":
            return JoinStr(sep, xs.derived(kind=list))
        raise Unsupported("join without a separator")
    if isinstance(xs, Sym):
        raise Unsupported(f"join of {type(xs).__name__}")
    if not hasattr(xs, "__iter__"):
        return sep.join(xs)
    xs = list(xs)
    if not any(isinstance(x, Sym) for x in xs) and isinstance(sep, str):
        return sep.join(xs)
    if any(isinstance(x, JoinStr) for x in xs):
        if len(xs) == 1:
            return xs[0]
        return JoinStr(sep, SymSeq(len(xs), lambda i: _concrete_index(xs, i), ghosts=lambda: [z3.IntVal(k) for k in range(len(xs))]))
    out = None
    for x in xs:
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item: expected str instance")
        out = x if out is None else out + sep + x
    return out


def fmt(*parts):
    """f-string without format specifications"""
    if not any(isinstance(p, SymStr) for p in parts):
        return "".join(p if type(p) is str else format(p) for p in parts)
    out = None
    for p in parts:
        if isinstance(p, SymStr):
            e = p.e
        elif isinstance(p, SReal) and p.e.is_int():
            e = int_text(p.e)
        else:
            e = z3.StringVal(p if type(p) is str else format(p))
        out = e if out is None else z3.Concat(out, e)
    return SymStr(out)


def to_str(x):
    """str(x)"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SReal) and x.e.is_int() and ctx().engine.render is None:
        return SymStr(int_text(x.e))
    return str(x)


def int_text(e):
    """decimal text of an integer: z3's str.from_int for non-negative numbers"""
    c = ctx()
    if c.lra_unsat(e < 0):
        return z3.IntToStr(e)
    return z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-e)))


def strif(cond, text, more):
    if isinstance(cond, SBool) and isinstance(text, str):
        return text + "<perhaps: " + more() + ">"
    return text + more() if cond else text


def s_not(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    return not x


import operator as _op

_IOPS = {
    "Add": (_op.iadd, _op.add),
    "Sub": (_op.isub, _op.sub),
    "Mult": (_op.imul, _op.mul),
    "Div": (_op.itruediv, _op.truediv),
    "FloorDiv": (_op.ifloordiv, _op.floordiv),
    "Mod": (_op.imod, _op.mod),
    "Pow": (_op.ipow, _op.pow),
    "MatMult": (_op.imatmul, _op.matmul),
    "BitAnd": (_op.iand, _op.and_),
    "BitOr": (_op.ior, _op.or_),
    "BitXor": (_op.ixor, _op.xor),
    "LShift": (_op.ilshift, _op.lshift),
    "RShift": (_op.irshift, _op.rshift),
}


def iop(name, a, b):
    inplace, plain = _IOPS[name]
    if isinstance(a, np.ndarray) and (is_sym(b) or a.dtype == object):
        r = plain(a, b)
        if a.dtype != object:
            return r
        a[...] = r
        return a
    return inplace(a, b)
