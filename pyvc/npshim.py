"""Stand-ins for numpy, math and the builtins used by the code under verification.

Concrete arguments go to the real numpy; symbolic arguments are treated exactly (real arithmetic).
The contracts of numpy that are assumed here: norm, det, inv (adjugate), dot, cross, clip, sign,
allclose/isclose (|a - b| <= atol + rtol*|b|), array construction and indexing.
"""

import builtins
import math as _math
import types
from fractions import Fraction

import numpy as _np
import z3

from . import sym
from .sym import PI, And, Or, SBool, SReal, Sym, Unsupported, defined, has_sym, is_sym, mkbool, zreal


def _grid():
    from .grid import SymGrid

    return SymGrid


def desym(x):
    from .seq import GList

    return x.view() if isinstance(x, GList) else x


def obj(x):
    """object array of (possibly symbolic) numbers"""
    x = desym(x)
    if isinstance(x, _np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, Sym):
        raise Unsupported("array of a symbolic sequence")
    if isinstance(x, (SReal, SBool)):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        parts = [obj(i) for i in x]
        if not parts:
            return _np.empty((0,), dtype=object)
        shapes = {p.shape for p in parts}
        if len(shapes) != 1:
            raise ValueError("inhomogeneous shape")
        out = _np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.shape == () else p
        return out
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def unwrap(a):
    if isinstance(a, _np.ndarray) and a.shape == ():
        return a[()]
    return a


def num(x):
    if isinstance(x, SBool):
        return int(bool(x))
    return x


class Linalg:
    LinAlgError = _np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            r = _np.linalg.norm(_np.asarray(x, dtype=float) if not isinstance(x, _np.ndarray) or x.dtype == object else x, ord=ord, axis=axis, keepdims=keepdims)
            if axis is None and not keepdims:
                # exact square root of concrete numbers
                s = sum((sym.to_fraction(i) ** 2 for i in _np.asarray(x).flat), Fraction(0))
                return sym.sqrt(SReal(z3.RealVal(s))) if sym.CUR is not None else r
            return r
        x = desym(x)
        if isinstance(x, Sym):
            from .seq import SymSeq

            if not isinstance(x, SymSeq) or len(x.shape_tail or ()) != 1 or ord not in (None, 2) or keepdims or axis not in (1, -1):
                raise Unsupported("norm of a symbolic array")
            return x.map(lambda r: self.norm(r), kind=_np.ndarray)
        a = obj(x)
        if ord not in (None, 2) or keepdims:
            raise Unsupported("norm with ord")
        if axis is None:
            if sym.ctx().loops.get("linear"):
                # a harness may ask for the linear bounds of the norm in place of its square
                return sym.norm_bounds(a.flat)
            s = 0
            for i in a.flat:
                s = s + i * i
            return sym.sqrt(s if isinstance(s, SReal) else SReal(zreal(s)), squares=True)
        axis = axis % a.ndim
        b = _np.moveaxis(a, axis, -1)
        out = _np.empty(b.shape[:-1], dtype=object)
        for i in _np.ndindex(out.shape):
            out[i] = self.norm(b[i])
        return out

    def det(self, m):
        if not has_sym(m):
            a = _np.asarray(m)
            if a.shape == (3, 3) or a.shape == (2, 2):
                v = self._det(obj(m))
                return v if isinstance(v, (SReal,)) else float(v) if a.dtype != object else v
            return _np.linalg.det(m)
        return self._det(obj(m))

    def _det(self, a):
        if a.shape == (3, 3):
            return (
                a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
                - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0])
            )
        if a.shape == (2, 2):
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        raise Unsupported(f"det of shape {a.shape}")

    def inv(self, m):
        if not has_sym(m):
            a = _np.asarray(m)
            if a.shape != (3, 3):
                return _np.linalg.inv(m)
            fr = _np.array([[sym.to_fraction(x) for x in r] for r in a], dtype=object)
            d = self._det(fr)
            if d == 0:
                raise _np.linalg.LinAlgError("Singular matrix")
            out = self._adj(fr)
            return _np.array([[float(x / d) for x in r] for r in out])
        a = obj(m)
        if a.shape != (3, 3):
            raise Unsupported(f"inverse of shape {a.shape}")
        d = self._det(a)
        d = d if isinstance(d, SReal) else SReal(zreal(d))
        defined(zreal(d) != 0, "inverse of a non-singular matrix")
        adj = self._adj(a)
        out = _np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                x = adj[i, j]
                out[i, j] = SReal(z3.RealVal(0)) if (not is_sym(x) and x == 0) else (x if isinstance(x, SReal) else SReal(zreal(x))) / d
        return out

    def _adj(self, a):
        out = _np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                r = [k for k in range(3) if k != j]
                s = [k for k in range(3) if k != i]
                v = a[r[0], s[0]] * a[r[1], s[1]] - a[r[0], s[1]] * a[r[1], s[0]]
                out[i, j] = v if (i + j) % 2 == 0 else -v
        return out

    def solve(self, a, b):
        if not has_sym(a) and not has_sym(b):
            return _np.linalg.solve(a, b)
        return self.inv(a) @ obj(b)

    def __getattr__(self, k):
        f = getattr(_np.linalg, k)
        return _guard(f, "linalg." + k)


def _guard(f, name):
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        if has_sym(list(a)) or has_sym(list(k.values())):
            raise Unsupported(f"numpy.{name} of symbolic values")
        return f(*a, **k)

    g.__name__ = name
    return g


def elementwise(f, *xs):
    xs = [desym(x) for x in xs]
    if any(isinstance(x, Sym) for x in xs):
        return sym_elementwise(f, *xs)
    arrs = _np.broadcast_arrays(*[obj(x) for x in xs])
    out = _np.empty(arrs[0].shape, dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return unwrap(out)


def sym_elementwise(f, *xs):
    """elementwise over a symbolic array (and arrays that are broadcast over its rows)"""
    from .seq import SymSeq, zip_arrays

    if not all(isinstance(x, SymSeq) or not isinstance(x, Sym) for x in xs):
        raise Unsupported("elementwise operation on a symbolic object")
    return zip_arrays(lambda *v: elementwise(f, *v), *xs)


def clip1(x, lo, hi):
    """clip without a case split: a fresh value with its definition"""
    if not is_sym(x):
        return min(max(x, lo), hi)
    e, l, h = zreal(x), zreal(lo), zreal(hi)
    c = sym.ctx()
    # value is x if x is known to be within the bounds
    if l.eq(z3.RealVal(-1)) and h.eq(z3.RealVal(1)):
        for a in c.engine.__dict__.get("unit_lemmas", []):
            a(c, x)
    try:
        if c.lra_unsat(z3.Or(e < l, e > h)):
            return x
    except sym.TooBig:
        pass
    if x.__lt__(lo) if not isinstance(x < lo, SBool) else bool(x < lo):
        return lo
    if bool(x > hi):
        return hi
    return x


def sign1(x):
    if not is_sym(x):
        return int(_np.sign(x))
    if bool(x > 0):
        return 1
    if bool(x < 0):
        return -1
    return 0


def as_real(x):
    return x if isinstance(x, SReal) else SReal(zreal(x))


def close1(a, b, rtol, atol):
    d = as_real(a) - as_real(b)
    tol = atol + rtol * abs(as_real(b))
    return And(d <= tol, -d <= tol)


class NP:
    """numpy"""

    pi = PI
    e = _math.e
    newaxis = None
    nan = _np.nan
    inf = _np.inf
    ndarray = _np.ndarray
    linalg = Linalg()
    bool_ = _np.bool_
    integer = _np.integer
    floating = _np.floating
    generic = _np.generic

    @staticmethod
    def _concrete(*a):
        return not any(has_sym(x) for x in a)

    def array(self, x, dtype=None, copy=True, **k):
        x = desym(x)
        if isinstance(x, Sym):
            return x.as_array() if hasattr(x, "as_array") else _unsup("array of a symbolic object")
        if isinstance(x, (list, tuple)) and any(isinstance(i, _grid()) for i in x):
            from .grid import stack

            return stack(x)
        if not has_sym(x):
            return _np.array(x, dtype=_dtype(dtype), **k)
        a = obj(x)
        a = a.copy()
        if dtype is not None and _dtype(dtype) in (int, _np.int64):
            for i in a.flat:
                if isinstance(i, SReal) and not i.e.is_int():
                    raise Unsupported("conversion of a real number to an integer array")
        return a

    def asarray(self, x, dtype=None, **k):
        x = desym(x)
        if isinstance(x, _np.ndarray) or (isinstance(x, Sym) and x.isinstance(_np.ndarray)):
            return x
        return self.array(x, dtype=dtype)

    asanyarray = ascontiguousarray = asarray

    def copy(self, x):
        return self.array(x)

    def dot(self, a, b):
        if self._concrete(a, b):
            return _np.dot(a, b)
        return unwrap_scalar(_np.dot(obj(a), obj(b)))

    def inner(self, a, b):
        return self.dot(a, b)

    vdot = inner

    def matmul(self, a, b):
        if isinstance(a, _grid()):
            return a @ b
        if self._concrete(a, b):
            return _np.matmul(a, b)
        return unwrap_scalar(obj(a) @ obj(b))

    def cross(self, a, b):
        if self._concrete(a, b):
            return _np.cross(a, b)
        a, b = obj(a), obj(b)
        if a.shape != (3,) or b.shape != (3,):
            raise Unsupported("cross product of shapes")
        return obj([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def transpose(self, a, axes=None):
        if isinstance(a, _grid()):
            return a.transpose(axes)
        if isinstance(a, (list, tuple)) and any(isinstance(x, _grid()) for x in a):
            return self.array(a).transpose(axes)
        if self._concrete(a):
            return _np.transpose(a, axes)
        return _np.transpose(obj(a), axes)

    def trace(self, a):
        return sum(obj(a)[i][i] for i in range(3))

    def outer(self, a, b):
        if self._concrete(a, b):
            return _np.outer(a, b)
        return obj([[x * y for y in obj(b)] for x in obj(a)])

    def sqrt(self, x):
        if self._concrete(x):
            a = _np.asarray(x)
            if a.shape == () and sym.CUR is not None:
                return sym.sqrt(SReal(zreal(x)))
            return _np.sqrt(x)
        return elementwise(lambda v: sym.sqrt(as_real(v)), x)

    def square(self, x):
        return elementwise(lambda v: v * v, x) if not self._concrete(x) else _np.square(x)

    def power(self, x, n):
        return elementwise(lambda v: v**n, x) if not self._concrete(x) else _np.power(x, n)

    def sin(self, x):
        return elementwise(lambda v: sym.sin(as_real(v)), x)

    def cos(self, x):
        return elementwise(lambda v: sym.cos(as_real(v)), x)

    def tan(self, x):
        return elementwise(lambda v: sym.tan(as_real(v)), x)

    def arccos(self, x):
        return elementwise(lambda v: sym.arccos(as_real(v)), x)

    acos = arccos

    def radians(self, x):
        return elementwise(lambda v: v * PI / 180, x)

    deg2rad = radians

    def degrees(self, x):
        return elementwise(lambda v: v * 180 / PI, x)

    rad2deg = degrees

    def abs(self, x):
        return elementwise(abs, x) if not self._concrete(x) else _np.abs(x)

    absolute = fabs = abs

    def sign(self, x):
        if self._concrete(x):
            return _np.sign(x)
        return elementwise(sign1, x)

    def clip(self, x, lo=None, hi=None, a_min=None, a_max=None):
        lo = a_min if lo is None else lo
        hi = a_max if hi is None else hi
        if self._concrete(x):
            return _np.clip(x, lo, hi)
        return elementwise(lambda v: clip1(v, lo, hi), x)

    def floor(self, x):
        return elementwise(lambda v: sym.sym_floor(as_real(v)), x) if not self._concrete(x) else _np.floor(x)

    def round(self, x, decimals=0):
        if self._concrete(x):
            return _np.round(x, decimals)
        if decimals == 0:
            return elementwise(lambda v: sym.sym_round(as_real(v)), x)
        return elementwise(lambda v: sym.sym_decimals(as_real(v), int(decimals)), x)

    around = round
    rint = round

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if self._concrete(a, b):
            return _np.isclose(a, b, rtol=rtol, atol=atol)
        return elementwise(lambda x, y: mkbool(close1(x, y, rtol, atol).e), a, b)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        a, b = desym(a), desym(b)
        if self._concrete(a, b):
            return _np.allclose(a, b, rtol=rtol, atol=atol)
        for x in (a, b):
            if isinstance(x, Sym):
                return x.allclose(b if x is a else a, rtol, atol)
        r = elementwise(lambda x, y: close1(x, y, rtol, atol), a, b)
        items = list(r.flat) if isinstance(r, _np.ndarray) else [r]
        return mkbool(And(items).e)

    def array_equal(self, a, b):
        if self._concrete(a, b):
            return _np.array_equal(a, b)
        a, b = obj(a), obj(b)
        if a.shape != b.shape:
            return False
        return mkbool(And([as_real(x) == as_real(y) for x, y in zip(a.flat, b.flat)]).e)

    def all(self, x, axis=None):
        x = desym(x)
        if isinstance(x, Sym):
            return x.all()
        if self._concrete(x):
            return _np.all(x, axis=axis)
        if axis is not None:
            raise Unsupported("all with axis")
        return mkbool(And(list(obj(x).flat)).e)

    def any(self, x, axis=None):
        x = desym(x)
        if isinstance(x, Sym):
            return x.any()
        if self._concrete(x):
            return _np.any(x, axis=axis)
        if axis is not None:
            raise Unsupported("any with axis")
        return mkbool(Or(list(obj(x).flat)).e)

    def logical_and(self, a, b):
        return elementwise(lambda x, y: mkbool(And(x, y).e), a, b)

    def logical_or(self, a, b):
        return elementwise(lambda x, y: mkbool(Or(x, y).e), a, b)

    def logical_not(self, a):
        return elementwise(lambda x: mkbool(z3.Not(sym.zbool(x))), a)

    def sum(self, x, axis=None):
        x = desym(x)
        if isinstance(x, Sym):
            raise Unsupported("sum of a symbolic sequence")
        if self._concrete(x):
            return _np.sum(x, axis=axis)
        a = obj(x)
        if any(isinstance(i, SBool) for i in a.flat):
            a = a.copy()
            for i in _np.ndindex(a.shape):
                a[i] = num(a[i])
        return unwrap_scalar(_np.sum(a, axis=axis))

    def prod(self, x, axis=None):
        return unwrap_scalar(_np.prod(obj(x), axis=axis)) if not self._concrete(x) else _np.prod(x, axis=axis)

    def cumsum(self, x, axis=None):
        return _np.cumsum(obj(x), axis=axis) if not self._concrete(x) else _np.cumsum(x, axis=axis)

    def diff(self, x, axis=-1):
        return _np.diff(obj(x), axis=axis) if not self._concrete(x) else _np.diff(x, axis=axis)

    def mean(self, x, axis=None):
        if self._concrete(x):
            return _np.mean(x, axis=axis)
        a = obj(x)
        n = a.size if axis is None else a.shape[axis]
        return unwrap_scalar(_np.sum(a, axis=axis)) / n

    def _reduce(self, f, x, axis):
        x = desym(x)
        if isinstance(x, Sym):
            return x.reduce(f, axis)
        a = obj(x)
        if axis is None:
            items = list(a.flat)
            r = items[0]
            for i in items[1:]:
                r = f(r, i)
            return r
        b = _np.moveaxis(a, axis, 0)
        out = b[0].copy() if b.ndim > 1 else b[0]
        for row in b[1:]:
            out = elementwise(f, out, row)
        return out

    def min(self, x, axis=None):
        if self._concrete(x):
            return _np.min(x, axis=axis)
        return self._reduce(min2, x, axis)

    def max(self, x, axis=None):
        if self._concrete(x):
            return _np.max(x, axis=axis)
        return self._reduce(max2, x, axis)

    amin, amax = min, max

    def minimum(self, a, b):
        return elementwise(min2, a, b) if not self._concrete(a, b) else _np.minimum(a, b)

    def maximum(self, a, b):
        return elementwise(max2, a, b) if not self._concrete(a, b) else _np.maximum(a, b)

    def where(self, c, *ab):
        if not ab:
            if has_sym(c):
                c = _np.array([bool(x) for x in obj(c).flat]).reshape(obj(c).shape)
            return _np.where(c)
        a, b = ab
        if self._concrete(c, a, b):
            return _np.where(c, a, b)
        return elementwise(_if, c, a, b)

    def moveaxis(self, a, source, destination):
        if isinstance(a, (list, tuple)) and any(isinstance(x, _grid()) for x in a):
            a = self.array(a)
        if isinstance(a, _grid()):
            return a.moveaxis(source, destination)
        return _np.moveaxis(obj(a), source, destination)

    def indices(self, shape, **k):
        if has_sym(list(shape)):
            from .grid import indices

            return indices(shape)
        return _np.indices(shape, **k)

    def reshape(self, x, shape):
        if isinstance(x, _grid()):
            return x.reshape(shape)
        return _np.reshape(x if isinstance(x, _np.ndarray) else obj(x), shape)

    def concatenate(self, xs, axis=0):
        xs = [desym(x) for x in xs]
        if any(isinstance(x, Sym) for x in xs):
            from .seq import sym_concat

            if axis != 0:
                raise Unsupported("concatenation along another axis")
            r = xs[0]
            for x in xs[1:]:
                r = sym_concat(r, x)
            tail = next((x.shape_tail for x in xs if isinstance(x, Sym) and x.shape_tail), None)
            return r.derived(kind=_np.ndarray, shape=tail)
        if self._concrete(*xs):
            return _np.concatenate(xs, axis=axis)
        return _np.concatenate([obj(x) for x in xs], axis=axis)

    def vstack(self, xs):
        if any(isinstance(desym(x), Sym) for x in xs):
            return self.concatenate(xs)
        return _np.vstack([obj(x) for x in xs])

    def stack(self, xs, axis=0):
        if any(isinstance(i, _grid()) for i in xs):
            from .grid import stack

            return stack(xs, axis)
        return _np.stack([obj(x) for x in xs], axis=axis)

    def append(self, a, b, axis=None):
        return _np.append(obj(a), obj(b), axis=axis)

    def linspace(self, a, b, n=50, **k):
        if self._concrete(a, b, n):
            return _np.linspace(a, b, n, **k)
        k = dict(k)
        end = k.pop("endpoint", True)
        if k:
            raise Unsupported("options of linspace")
        if isinstance(n, SReal):
            return self._linspace(obj(a), obj(b), n, end)
        if not end:
            raise Unsupported("linspace without the end point")
        a, b = obj(a), obj(b)
        rows = []
        for i in range(n):
            t = Fraction(i, n - 1) if n > 1 else Fraction(0)
            rows.append(elementwise(lambda x, y: as_real(x) + t * (as_real(y) - as_real(x)), a, b))
        return obj(rows)

    def _linspace(self, a, b, n, end):
        from .seq import SymSeq, num, zint

        c = sym.ctx()
        i = zint(n)
        if c.decide(i < 0):
            raise ValueError("Number of samples must be non-negative.")
        steps = n - 1 if end else n
        if c.decide(i <= (1 if end else 0)):
            raise Unsupported("linspace with at most one symbolic point")

        def at(j):
            t = num(j) / steps
            return unwrap(elementwise(lambda x, y: as_real(x) + t * (as_real(y) - as_real(x)), a, b))

        return SymSeq(i, at, kind=_np.ndarray, name="linspace", shape=_np.broadcast(a, b).shape or None)

    def diag(self, x):
        a = obj(x)
        if a.ndim == 1:
            out = _np.zeros((len(a), len(a)), dtype=object)
            for i in range(len(a)):
                out[i, i] = a[i]
            return out
        return obj([a[i, i] for i in range(len(a))])

    def _filled(self, make, dtype):
        """a fresh array of floats: symbolic numbers may be stored in it later"""
        a = make()
        return a.astype(object) if sym.CUR is not None and isinstance(a, _np.ndarray) and a.dtype == float else a

    def zeros(self, shape, dtype=float, **k):
        return self._filled(lambda: _guard(_np.zeros, "zeros")(shape, dtype=dtype, **k), dtype)

    def ones(self, shape, dtype=float, **k):
        return self._filled(lambda: _guard(_np.ones, "ones")(shape, dtype=dtype, **k), dtype)

    def empty(self, shape, dtype=float, **k):
        return self._filled(lambda: _guard(_np.empty, "empty")(shape, dtype=dtype, **k), dtype)

    def eye(self, n, *a, **k):
        return self._filled(lambda: _guard(_np.eye, "eye")(n, *a, **k), None)

    def identity(self, n, *a, **k):
        return self._filled(lambda: _guard(_np.identity, "identity")(n, *a, **k), None)

    def full(self, shape, value, **k):
        if is_sym(value):
            a = _np.empty(shape, dtype=object)
            a[...] = value
            return a
        return self._filled(lambda: _guard(_np.full, "full")(shape, value, **k), None)

    def zeros_like(self, x, **k):
        x = desym(x)
        if isinstance(x, _np.ndarray) and not k:
            return _np.full(x.shape, 0.0, dtype=object) if x.dtype == object else self.zeros(x.shape, dtype=x.dtype)
        return _guard(_np.zeros_like, "zeros_like")(x, **k)

    def arange(self, *a, **k):
        if any(isinstance(x, SReal) for x in a):
            from .seq import sym_arange

            return sym_arange(*a)
        return _np.arange(*a, **k)

    def meshgrid(self, *a, **k):
        if any(isinstance(x, Sym) for x in a):
            from .grid import meshgrid

            return meshgrid(*a, **k)
        return _np.meshgrid(*a, **k)

    def finfo(self, t):
        return _np.finfo(float)

    def __getattr__(self, k):
        f = getattr(_np, k)
        return _guard(f, k)


def _unsup(m):
    raise Unsupported(m)


def unwrap_scalar(x):
    return unwrap(x) if isinstance(x, _np.ndarray) else x


def _if(cond, x, y):
    if not isinstance(cond, SBool):
        return x if cond else y
    if all(isinstance(v, (SReal, int, float, Fraction, _np.number)) for v in (x, y)):
        return sym.choice(cond, x, y)
    return x if bool(cond) else y


def min2(a, b):
    return _if(a <= b, a, b)


def max2(a, b):
    return _if(a >= b, a, b)


def _dtype(d):
    if d is S_float:
        return float
    if d is S_int:
        return int
    if d is S_bool:
        return bool
    return d


class Math:
    pi = PI
    e = _math.e
    inf = _math.inf
    nan = _math.nan

    def cos(self, x):
        return _unbox(sym.cos(as_real(x)))

    def sin(self, x):
        return _unbox(sym.sin(as_real(x)))

    def tan(self, x):
        return _unbox(sym.tan(as_real(x)))

    def acos(self, x):
        return sym.arccos(as_real(x))

    def sqrt(self, x):
        return sym.sqrt(as_real(x))

    def radians(self, x):
        return x * PI / 180

    def degrees(self, x):
        return x * 180 / PI

    def floor(self, x):
        return sym.sym_floor(x) if is_sym(x) else _math.floor(x)

    def fabs(self, x):
        return abs(x)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(as_real(a) - as_real(b))
        return mkbool(Or(d <= rel_tol * abs(as_real(a)), d <= rel_tol * abs(as_real(b)), d <= abs_tol).e)

    def hypot(self, *a):
        return NP.linalg.norm(obj(list(a)))

    def dist(self, p, q):
        return NP.linalg.norm(obj(p) - obj(q))

    def prod(self, xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def fsum(self, xs):
        return sum(xs)

    def __getattr__(self, k):
        return _guard(getattr(_math, k), "math." + k)


def _unbox(x):
    return x


# ------------------------------------------------------------------------------------- builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class S_float(metaclass=_Meta):
    _real = float

    @staticmethod
    def _check(x):
        return isinstance(x, float) or (isinstance(x, SReal) and not x.e.is_int())

    @staticmethod
    def _make(x=0.0):
        if isinstance(x, SReal):
            return SReal(zreal(x), x.pi)
        if isinstance(x, SBool):
            return int(bool(x))
        if isinstance(x, str) and sym.CUR is not None:
            t = x.strip()
            if t in sym.CUR.tokens:
                v = sym.CUR.tokens[t]
                if isinstance(v, SReal):
                    return v
                raise ValueError(f"could not convert string to float: {x!r}")
        if isinstance(x, Sym):
            return x.to_float() if hasattr(x, 'to_float') else _unsup('float() of a symbolic object')
        return float(x)

    fromhex = staticmethod(float.fromhex)


class S_int(metaclass=_Meta):
    _real = int

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            return x.isinstance(int)
        return isinstance(x, int) or (isinstance(x, SReal) and x.e.is_int())

    @staticmethod
    def _make(x=0, *a):
        if isinstance(x, SReal):
            return sym.sym_trunc(x)
        if isinstance(x, SBool):
            return int(bool(x))
        if isinstance(x, str) and sym.CUR is not None:
            t = x.strip()
            if t in sym.CUR.tokens:
                v = sym.CUR.tokens[t]
                if isinstance(v, SReal) and v.e.is_int():
                    return v
                raise ValueError(f"invalid literal for int() with base 10: {x!r}")
        if isinstance(x, Sym):
            return x.to_int() if hasattr(x, 'to_int') else _unsup('int() of a symbolic object')
        return int(x, *a)


class S_bool(metaclass=_Meta):
    _real = bool

    @staticmethod
    def _check(x):
        return isinstance(x, (bool, SBool))

    @staticmethod
    def _make(x=False):
        if isinstance(x, SBool):
            return x
        return bool(x)


class S_str(metaclass=_Meta):
    _real = str

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            return x.isinstance(str)
        return isinstance(x, str)

    @staticmethod
    def _make(x="", *a):
        if isinstance(x, Sym) and x.isinstance(str) is True:
            return x
        return str(x, *a)

    join = staticmethod(lambda sep, xs: s_join(sep, xs))
    lower = staticmethod(str.lower)
    maketrans = staticmethod(str.maketrans)


def s_join(sep, xs):
    return sep.join(xs)


def s_isinstance(x, t):
    if isinstance(t, tuple):
        for k in t:
            r = s_isinstance(x, k)
            if isinstance(r, SBool):
                if bool(r):
                    return True
            elif r:
                return True
        return False
    t = getattr(t, "__dict__", {}).get("_real", t)
    if isinstance(x, Sym):
        return x.isinstance(t)
    if isinstance(x, SReal):
        if t in (_np.integer, _np.floating):
            return False
        if t in (int, float):
            return x.e.is_int() == (t is int)
        if t is bool:
            return False
    if isinstance(x, SBool) and t in (bool, int):
        return True
    return isinstance(x, t)


def s_len(x):
    from .seq import Guarded

    if isinstance(x, Guarded):
        return x.length()
    x = desym(x)
    if isinstance(x, Sym):
        return x.length()
    return len(x)


def s_range(*a):
    if any(isinstance(x, SReal) for x in a):
        from .seq import sym_range

        return sym_range(*a)
    return range(*a)


def s_enumerate(x, start=0):
    x = desym(x)
    if isinstance(x, Sym):
        return x.enumerate(start)
    return enumerate(x, start)


def s_zip(*xs, **k):
    xs = [desym(x) for x in xs]
    if any(isinstance(x, Sym) for x in xs):
        from .seq import sym_zip

        return sym_zip(*xs)
    return zip(*xs, **k)


def s_map(f, *xs):
    xs = [desym(x) for x in xs]
    if any(isinstance(x, Sym) for x in xs):
        from .seq import sym_map

        return sym_map(f, *xs)
    return map(f, *xs)


def glist(x):
    from .seq import GList

    return GList(x) if sym.CUR is not None else list(x)


def s_list(x=()):
    x = desym(x)
    if isinstance(x, Sym):
        return x.as_list()
    return glist(x)


def s_set(x=()):
    x = desym(x)
    if isinstance(x, Sym):
        return x.as_set()
    x = list(x)
    if any(is_sym(i) or isinstance(i, Sym) for i in x):
        from .seq import SmallSet

        return SmallSet(x)
    return set(x)


def s_sorted(x, **k):
    x = desym(x)
    if isinstance(x, Sym):
        return x.sorted(**k)
    return glist(sorted(x, **k))


def s_sum(x, start=0):
    x = desym(x)
    if isinstance(x, Sym):
        return x.sum(start)
    r = start
    for i in x:
        r = r + (int(bool(i)) if isinstance(i, SBool) else i)
    return r


def s_any(x):
    x = desym(x)
    if isinstance(x, Sym):
        return x.any()
    for i in x:
        if i:
            return True
    return False


def s_all(x):
    x = desym(x)
    if isinstance(x, Sym):
        return x.all()
    for i in x:
        if not i:
            return False
    return True


def s_round(x, n=None):
    if isinstance(x, SReal):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def s_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].min()
    return min(*a, **k)


def s_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].max()
    return max(*a, **k)


def s_tuple(x=()):
    x = desym(x)
    if isinstance(x, Sym):
        return x.as_list()
    return tuple(x)


class S_list(metaclass=_Meta):
    _real = list

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            return x.isinstance(list)
        return isinstance(x, list)

    _make = staticmethod(s_list)


class S_tuple(metaclass=_Meta):
    _real = tuple

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            return x.isinstance(tuple)
        return isinstance(x, tuple)

    _make = staticmethod(s_tuple)


class S_set(metaclass=_Meta):
    _real = set

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            return x.isinstance(set)
        return isinstance(x, set)

    _make = staticmethod(s_set)


BUILTINS = dict(
    float=S_float,
    int=S_int,
    bool=S_bool,
    str=S_str,
    list=S_list,
    tuple=S_tuple,
    set=S_set,
    isinstance=s_isinstance,
    len=s_len,
    range=s_range,
    enumerate=s_enumerate,
    zip=s_zip,
    map=s_map,
    sorted=s_sorted,
    sum=s_sum,
    any=s_any,
    all=s_all,
    round=s_round,
    min=s_min,
    max=s_max,
)

np = NP()
math = Math()


def as_module(name, obj_):
    m = types.ModuleType(name)
    m.__getattr__ = lambda k: getattr(obj_, k)
    return m
