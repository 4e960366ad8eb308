"""Arrays with several axes of symbolic lengths (meshgrids and what is made of them)"""
import numpy as _np

from . import sym
from .sym import SReal, Sym, Unsupported, ctx, zreal


def _size(d):
    r = 1
    for s in d:
        r = r * s
    return r


def _eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().ring.equal(zreal(a), zreal(b))


class SymGrid(Sym):
    """dims: the axes, each a tuple of the sizes it is merged from (row-major); at(indices of all the
    sizes) gives the element"""

    def __init__(self, dims, at):
        self.dims = [tuple(d) for d in dims]
        self._at = at
        self.memo = {}

    # -------------------------------------------------------------- reading (contracts)
    def at(self, *idx):
        """one index per size, in order"""
        flat = [s for d in self.dims for s in d]
        if len(idx) != len(flat):
            raise Unsupported("number of indices of a symbolic array")
        return self._at(list(idx))

    @property
    def shape(self):
        return tuple(_size(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return _size(self.shape)

    @property
    def T(self):
        return self.transpose()

    def length(self):
        return self.shape[0]

    def isinstance(self, t):
        return t is _np.ndarray

    # -------------------------------------------------------------- operations
    def as_array(self):
        return SymGrid(self.dims, self._at)

    copy = as_array

    def astype(self, t, **k):
        t = getattr(t, "_real", t)
        if t in (float, int, _np.float64, _np.int64):
            return self.as_array()
        raise Unsupported("conversion of a symbolic array")

    def deepcopy(self):
        return self.as_array()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(range(self.ndim))[::-1]
        axes = [a % self.ndim for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        start, k = [], 0
        for d in self.dims:
            start.append(k)
            k += len(d)
        order = [start[a] + i for a in axes for i in range(len(self.dims[a]))]

        def at(idx):
            old = [None] * len(idx)
            for new, o in enumerate(order):
                old[o] = idx[new]
            return self._at(old)

        return SymGrid([self.dims[a] for a in axes], at)

    def moveaxis(self, source, destination):
        source, destination = source % self.ndim, destination % self.ndim
        o = [i for i in range(self.ndim) if i != source]
        o.insert(destination, source)
        return self.transpose(o)

    def reshape(self, *shape, **k):
        if k.get("order", "C") != "C":
            raise Unsupported("order of a reshape")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        flat = [s for d in self.dims for s in d]

        def match(sizes, shape):
            """row-major grouping of sizes into shape"""
            if not shape:
                return [] if not sizes else None
            if isinstance(shape[0], int) and shape[0] == -1:
                if not all(not (isinstance(x, int) and x == -1) for x in shape[1:]):
                    raise ValueError("can only specify one unknown dimension")
                for n in range(len(sizes), -1, -1):
                    r = match(sizes[n:], shape[1:])
                    if r is not None:
                        return [tuple(sizes[:n])] + r
                return None
            for n in range(1, len(sizes) + 1):
                if _eq(_size(sizes[:n]), shape[0]):
                    r = match(sizes[n:], shape[1:])
                    if r is not None:
                        return [tuple(sizes[:n])] + r
            return None

        dims = match(flat, list(shape))
        if dims is None:
            raise Unsupported("reshape of a symbolic array")
        return SymGrid(dims, self._at)

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    def __matmul__(self, m):
        m = _np.asarray(m, dtype=object)
        if self.dims[-1] != (3,) or m.shape[:1] != (3,):
            raise Unsupported("product of a symbolic array")
        if m.ndim == 1:
            return SymGrid(self.dims[:-1], lambda idx: sum(self._at(idx + [c]) * m[c] for c in range(3)))
        return SymGrid(self.dims[:-1] + [(m.shape[1],)], lambda idx: sum(self._at(idx[:-1] + [c]) * m[c, idx[-1]] for c in range(3)))

    def _binary(self, o, f):
        if isinstance(o, SymGrid):
            if len(o.dims) != len(self.dims) or not all(len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b)) for a, b in zip(self.dims, o.dims)):
                raise Unsupported("broadcast of symbolic arrays")
            return SymGrid(self.dims, lambda idx: f(self._at(idx), o._at(idx)))
        if isinstance(o, _np.ndarray) and o.ndim == 1 and self.dims[-1] == o.shape:
            return SymGrid(self.dims, lambda idx: f(self._at(idx), o[idx[-1]]))
        if isinstance(o, (int, float, SReal, _np.number)):
            return SymGrid(self.dims, lambda idx: f(self._at(idx), o))
        raise Unsupported("operation on a symbolic array")

    def __add__(self, o):
        return self._binary(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._binary(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._binary(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._binary(o, lambda a, b: a / b)

    def __neg__(self):
        return SymGrid(self.dims, lambda idx: -self._at(idx))

    def __getitem__(self, k):
        """[..., c], [..., None] and full slices"""
        if not isinstance(k, tuple):
            k = (k,)
        n = len([x for x in k if x is not None and x is not Ellipsis])
        if Ellipsis in k:
            i = k.index(Ellipsis)
            k = k[:i] + (slice(None),) * (self.ndim - n) + k[i + 1 :]
        k = k + (slice(None),) * (self.ndim - len([x for x in k if x is not None]))
        dims, pos, d = [], [], 0
        for x in k:
            if x is None:
                dims.append((1,))
                pos.append(("drop", 1))
            elif isinstance(x, slice) and x == slice(None):
                dims.append(self.dims[d])
                pos.append(("keep", len(self.dims[d])))
                d += 1
            elif isinstance(x, int) and len(self.dims[d]) == 1 and isinstance(self.dims[d][0], int):
                pos.append(("fix", x % self.dims[d][0]))
                d += 1
            else:
                raise Unsupported("index of a symbolic array")

        def at(idx):
            out, i = [], 0
            for kind, v in pos:
                if kind == "drop":
                    i += 1
                elif kind == "keep":
                    out += idx[i : i + v]
                    i += v
                else:
                    out.append(v)
            return self._at(out)

        return SymGrid(dims, at)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array")

    def __repr__(self):
        return "<array>"


def stack(xs, axis=0):
    """a new axis of concrete length"""
    xs = list(xs)
    first = xs[0]
    for x in xs[1:]:
        first._binary(x, lambda a, b: a)
    r = SymGrid([(len(xs),)] + first.dims, lambda idx: xs[idx[0]]._at(idx[1:]))
    return r.moveaxis(0, axis if axis >= 0 else r.ndim + axis)


def meshgrid(*a, indexing="xy", **k):
    from .seq import SymSeq

    if k:
        raise Unsupported("options of meshgrid")
    a = [x if isinstance(x, SymSeq) else SymSeq(len(x), lambda i, x=x: x[int(str(i))]) for x in a]
    dims = [(SReal(x.n),) for x in a]
    gs = [SymGrid(dims, lambda idx, x=x, i=i: x.at(idx[i])) for i, x in enumerate(a)]
    if indexing == "xy" and len(a) >= 2:
        o = list(range(len(a)))
        o[0], o[1] = 1, 0
        gs = [g.transpose(o) for g in gs]
    return gs


def indices(shape):
    """numpy.indices"""
    return stack([SymGrid([(s,) for s in shape], lambda idx, i=i: idx[i]) for i in range(len(shape))])
