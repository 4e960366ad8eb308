"""Stand-ins shared by the contract modules: callees replaced by their contracts."""
import numpy

from pyvc.api import *
from pyvc.sym import PathEnd

S = "wulfric._spglib_interface."
B = "wulfric.cell._basic_manipulation."
V = "wulfric.crystal._crystal_validation.validate_atoms"
X = "wulfric.crystal."


def say(x):
    try:
        return str(x)[:200]
    except Exception:
        return type(x).__name__


class Bad(ValueError):
    """raised by a stand-in"""


def same(a, b):
    """the same symbolic matrix or vector, entry by entry"""
    try:
        a, b = numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    return all(x is y or (isinstance(x, SReal) and isinstance(y, SReal) and z3.eq(z3.simplify(x.e), z3.simplify(y.e)))
               or (not has_sym(x) and not has_sym(y) and x == y) for x, y in zip(a.flat, b.flat))


has_sym = sym.has_sym


def spglib_data(vc, L, **attrs):
    """an object of SpglibData with the given attributes (no call of spglib)"""
    cls = L.get(S + "SpglibData")
    d = object.__new__(cls)
    base = dict(symprec=1e-5, angle_tolerance=-1, spglib_version="0")
    base.update(attrs)
    for k, v in base.items():
        object.__setattr__(d, k, v)
    return d


class Callees:
    """Stand-ins of validate_atoms, get_spglib_data, validate_spglib_data, get_conventional,
    get_primitive, get_params and get_reciprocal, by their contracts."""

    def __init__(self, vc, L, cell, atoms, **given):
        self.vc, self.cell, self.atoms = vc, cell, atoms
        self.log = []
        self.params = []  # (matrix, six parameters)
        self.cells = {}
        self.recips = []
        self.reject = given.get("reject")
        L.stub(V, self.validate_atoms)
        L.stub(S + "get_spglib_data", self.get_spglib_data)
        L.stub(S + "validate_spglib_data", self.validate_spglib_data)
        own = given.get("own", ())
        if "get_conventional" not in own:
            L.stub(X + "_conventional.get_conventional", self.get_conventional)
        if "get_primitive" not in own:
            L.stub(X + "_primitive.get_primitive", self.get_primitive)
        L.stub(B + "get_params", self.get_params)
        L.stub(B + "get_reciprocal", self.get_reciprocal)
        self.data = spglib_data(vc, L, **given.get("data", {}))

    def atoms_ok(self, atoms):
        self.vc.check(atoms is self.atoms or atoms == self.atoms, "callee gets the given atoms")

    def validate_atoms(self, atoms, required_keys=None, raise_errors=False):
        self.atoms_ok(atoms)
        self.log.append("validate_atoms")
        if self.reject == "atoms":
            if raise_errors:
                raise Bad("atoms")
            return False
        return True

    def get_spglib_data(self, cell, atoms, spglib_symprec=1e-5, spglib_angle_tolerance=-1):
        self.vc.check(same(cell, self.cell), "get_spglib_data gets the given cell")
        self.atoms_ok(atoms)
        self.log.append("get_spglib_data")
        return self.data

    def validate_spglib_data(self, cell, atoms, spglib_data):
        self.vc.check(same(cell, self.cell), "validate_spglib_data gets the given cell")
        self.vc.check(spglib_data is self.data, "validate_spglib_data gets the given data")
        self.atoms_ok(atoms)
        self.log.append("validate_spglib_data")
        if self.reject == "data":
            raise Bad("data")

    def _cell(self, kind, cell, atoms, convention, spglib_data):
        self.vc.check(same(cell, self.cell), "callee gets the given cell")
        self.vc.check(spglib_data is self.data, "callee gets the data")
        self.atoms_ok(atoms)
        key = kind, convention.lower()
        if key not in self.cells:
            self.cells[key] = self.vc.fresh_array((3, 3), f"{kind}_{convention}")
            self.on_cell(kind, convention.lower(), self.cells[key])
        return self.cells[key].copy(), dict(self.atoms)

    def get_conventional(self, cell, atoms, convention="HPKOT", spglib_data=None):
        return self._cell("conventional", cell, atoms, convention, spglib_data)

    def get_primitive(self, cell, atoms, convention="HPKOT", spglib_data=None):
        return self._cell("primitive", cell, atoms, convention, spglib_data)

    def on_cell(self, kind, convention, m):
        pass

    def get_params(self, cell):
        for m, p in self.params:
            if same(m, cell):
                return list(p)
        self.vc.check(False, "get_params is called with a cell the contract describes")
        raise PathEnd()

    def get_reciprocal(self, cell):
        for m, r in self.recips:
            if same(m, cell):
                return r.copy()
        r = self.vc.fresh_array((3, 3), "reciprocal")
        self.recips.append((numpy.array(cell, dtype=object), r))
        self.on_reciprocal(cell, r)
        return r.copy()

    def on_reciprocal(self, cell, r):
        pass


def det3(m):
    a, b, c = m
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def positive_params(vc, p):
    vc.assume(And([x > 0 for x in p[:3]]))
    vc.assume(And([And(x > 0, x < 180) for x in p[3:]]))


def row_of(m, rows):
    """(index, sign) of the row of `rows` that m is, up to its sign (an identity of polynomials)"""
    ring = ctx().ring
    for j, r in enumerate(rows):
        for s in (1, -1):
            if all(ring.equal(zreal(x), zreal(s * y)) for x, y in zip(m, r)):
                return j, s
    return None


def signed_rows(m, rows):
    """m as signed rows of `rows`, or None"""
    m = numpy.asarray(m, dtype=object)
    if m.shape != (3, 3):
        return None
    out = [row_of(r, rows) for r in m]
    if None in out or sorted(j for j, _ in out) != [0, 1, 2]:
        return None
    return out


def handedness(t):
    """determinant of a signed permutation"""
    idx = [j for j, _ in t]
    sign = 1
    for i in range(3):
        for j in range(i):
            if idx[j] > idx[i]:
                sign = -sign
    for _, s in t:
        sign *= s
    return sign


class Basis:
    """A cell with rows r, lengths l and angles (degrees) al of the pairs (2,3), (1,3), (1,2), and its
    reciprocal cell; the contracts of get_params (C02, C21: the angle with a reversed vector is 180
    minus the angle) and of get_reciprocal (C04: duality) for its signed permutations."""

    def __init__(self, vc, name, rows=None, al=None):
        self.vc = vc
        self.rows = vc.matrix(name) if rows is None else rows
        self.len = vc.reals(" ".join(f"{name}_{x}" for x in "abc"))
        self.ang = vc.reals(" ".join(f"{name}_{x}" for x in ("alpha", "beta", "gamma")))
        positive_params(vc, [*self.len, *self.ang])
        self.recip = None

    def find(self, m):
        return signed_rows(m, self.rows)

    def params(self, t):
        ang = []
        for i, j in ((1, 2), (0, 2), (0, 1)):
            x = self.ang[3 - t[i][0] - t[j][0]]
            ang.append(x if t[i][1] * t[j][1] > 0 else 180 - x)
        return [*(self.len[j] for j, _ in t), *ang]

    def image(self, t):
        return numpy.array([[s * x for x in self.rows[j]] for j, s in t], dtype=object)


class Bases:
    """get_params / get_reciprocal for the signed permutations of known cells"""

    def __init__(self, vc):
        self.vc = vc
        self.list = []

    def add(self, b, recip=None):
        self.list.append(b)
        if recip is not None:
            b.recip, recip.recip = recip, b
            self.list.append(recip)
        return b

    def find(self, m):
        for b in self.list:
            t = b.find(m)
            if t is not None:
                return b, t
        self.vc.check(False, "the cell is a signed permutation of a cell the contract describes (the choice only permutes and flips vectors)")
        raise PathEnd()

    def get_params(self, cell):
        b, t = self.find(cell)
        return tuple(b.params(t))

    def get_reciprocal(self, cell):
        b, t = self.find(cell)
        return b.recip.image(t)
