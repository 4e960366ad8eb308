"""shift_atoms, cure_negative, ensure_000, get_vector, get_distance: any number of atoms"""
import numpy

from contracts.common import *
from contracts.seqs import *
from pyvc.lemmas import norm_of

M = X + "_basic_manipulation."
KINDS = [("list", "array"), ("list", "list"), ("ndarray", "array")]


def crystal(vc, kind, row):
    n = count(vc)
    g, h = index(vc, "g", n), index(vc, "h", n)
    ghosts(vc, g, h)
    p = rows(vc, "pos", n, row, list if kind == "list" else numpy.ndarray)
    old = rows(vc, "pos", n)
    names = object()
    return n, g, h, dict(positions=p, names=names), old, names


def extremes(vc, p, old, n, k):
    """an index of a smallest and one of a largest k-th coordinate"""
    a, b = index(vc, "a", n), index(vc, "b", n)
    lo, hi = el(old, a)[k], el(old, b)[k]
    p.axioms.append(lambda i, r: And(r[k] >= lo, r[k] <= hi))
    for j in (a, b):
        ctx().fact(zbool(And(el(old, j)[k] >= lo, el(old, j)[k] <= hi)))
    return a, b, lo


def kept(vc, atoms, names, n):
    vc.check(set(atoms) == {"positions", "names"} and atoms["names"] is names, "the other keys are kept")
    vc.prove(length(atoms["positions"]) == n, "as many positions as before")


@harness(M + "shift_atoms", cases=[(m, k, c) for m in ("default", "relative", "Cartesian") for k in KINDS for c in range(3)], covers=["shifted"])
def shift(vc, L, mode, kind, k):
    n, g, h, atoms, old, names = crystal(vc, *kind)
    a, b, lo = extremes(vc, atoms["positions"], old, n, k)
    ghosts(vc, g, a, b)
    f = L.get(M + "shift_atoms")
    gp = vc.reals("g1 g2 g3")
    if mode == "default":
        f(atoms)
        want = [sym.to_fraction(0.5)] * 3
    elif mode == "relative":
        f(atoms, gravity_point=tuple(gp) if kind[1] == "array" else obj(gp))
        want = gp
    else:
        cell = vc.matrix("cell")
        vc.assume(det3(cell) != 0)
        f(atoms, gravity_point=obj(gp), cell=cell, gp_is_relative=False)
        want = obj(gp) @ npshim.np.linalg.inv(cell)
        vc.prove_eq(want @ cell, obj(gp), "relative coordinates of the gravity point")
    vc.cover("shifted")
    new = atoms["positions"]
    kept(vc, atoms, names, n)
    vc.prove(And([el(new, g)[i] - el(old, g)[i] == el(new, a)[i] - el(old, a)[i] for i in range(3)]), "one common vector is added to all positions")
    vc.prove(And(el(new, a)[k] <= el(new, g)[k], el(new, b)[k] >= el(new, g)[k]), f"the smallest and the largest coordinate along vector {k + 1} are those of the same atoms")
    vc.prove_eq((el(new, a)[k] + el(new, b)[k]) / 2 - as_real(want[k]), 0, f"the middle of the extent along vector {k + 1} is the gravity point")


@harness(M + "shift_atoms", covers=["refused"])
def shift_no_cell(vc, L):
    n, g, h, atoms, old, names = crystal(vc, "list", "array")
    p = atoms["positions"]
    st, e = vc.call(L.get(M + "shift_atoms"), atoms, gravity_point=obj(vc.reals("g1 g2 g3")), gp_is_relative=False)
    vc.check(st == "raise" and isinstance(e, ValueError), "Cartesian gravity point without a cell is refused with ValueError", str(e))
    vc.check(atoms["positions"] is p and not p.changed(), "nothing is changed")
    vc.cover("refused")


@harness(M + "cure_negative", cases=[(*x, k) for x in KINDS for k in range(3)], covers=["cured"])
def cure(vc, L, kind, row, k):
    n, g, h, atoms, old, names = crystal(vc, kind, row)
    a, b, lo = extremes(vc, atoms["positions"], old, n, k)
    L.get(M + "cure_negative")(atoms)
    vc.cover("cured")
    new = atoms["positions"]
    kept(vc, atoms, names, n)
    vc.prove(And([el(new, g)[i] - el(old, g)[i] == el(new, h)[i] - el(old, h)[i] for i in range(3)]), "one common vector is added to all positions")
    vc.prove(el(new, g)[k] >= 0, "coordinates are non-negative")
    vc.prove(Implies(lo >= 0, el(new, g)[k] == el(old, g)[k]), "a component without negative coordinates is left alone")


@harness(M + "ensure_000", cases=KINDS, covers=["reduced"])
def reduce(vc, L, kind, row):
    n, g, h, atoms, old, names = crystal(vc, kind, row)
    ghosts(vc, g)
    L.get(M + "ensure_000")(atoms)
    vc.cover("reduced")
    kept(vc, atoms, names, n)
    for k in range(3):
        x, y = as_real(el(atoms["positions"], g)[k]), el(old, g)[k]
        vc.prove(And(x >= 0, x < 1), "coordinates are in [0, 1)")
        vc.prove(sym.SBool(z3.IsInt(zreal(x - y))), "coordinates change by an integer")


@harness(M + "get_vector", M + "get_distance", cases=[(k, r) for k in KINDS for r in ("array", "tuple")], covers=["vector"])
def vector(vc, L, kind, rkind):
    n, g, h, atoms, old, names = crystal(vc, *kind)
    cell = vc.matrix("cell")
    R = vc.reals("R1 R2 R3")
    Rk = tuple(R) if rkind == "tuple" else obj(R)
    Rm = tuple(-x for x in R)
    r1, r2 = obj(el(old, g)), obj(el(old, h))
    f, d = L.get(M + "get_vector"), L.get(M + "get_distance")
    rel = obj(R) + r2 - r1
    vc.prove_eq(obj(f(cell, atoms, g, h, R=Rk, return_relative=True)), rel, "relative vector is R + r2 - r1")
    v = obj(f(cell, atoms, g, h, R=Rk))
    vc.cover("vector")
    vc.prove_eq(v, rel @ cell, "vector is (R + r2 - r1) @ cell")
    vc.prove_eq(obj(f(cell, atoms, h, g, R=Rm)), -v, "antisymmetric under the exchange of the atoms")
    vc.prove_eq(obj(f(cell, atoms, g, h)), (r2 - r1) @ cell, "R = (0, 0, 0) if not given")
    vc.prove_eq(as_real(d(cell, atoms, g, h, R=Rk)), norm_of(rel @ cell), "distance is the length of the vector")
    vc.prove_eq(as_real(d(cell, atoms, g, h)), norm_of((r2 - r1) @ cell), "distance for the default R")
    vc.check(not atoms["positions"].changed() and set(atoms) == {"positions", "names"}, "the input is not modified")
