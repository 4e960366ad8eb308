"""get_reciprocal / get_transformation_matrix"""
from pyvc.api import *
from pyvc.lemmas import cross, dot

B = "wulfric.cell._basic_manipulation."


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


@harness(B + "get_reciprocal", cases=["array", "list"], covers=["dual"])
def duality(vc, L, kind):
    cell = vc.matrix("c")
    d = det3(cell)
    vc.assume(d != 0)
    f = L.get(B + "get_reciprocal")
    r = f(cell if kind == "array" else [list(x) for x in cell])
    vc.check(getattr(r, "shape", None) == (3, 3), "the result is a (3, 3) array")
    for i in range(3):
        for j in range(3):
            vc.prove_eq(dot(cell[i], r[j]), 2 * sym.PI if i == j else 0, f"a{i + 1}.b{j + 1} = 2 pi delta")
    dr = det3(r)
    P = sym.PI
    vc.prove_eq(dr * d, 8 * P * P * P, "volume of the reciprocal cell")
    vc.lemma("nz", lambda x, y, z: And(x * y == 8 * z * z * z, z > 0), lambda x, y, z: x != 0, dr, d, SReal(sym.PI_Z))
    vc.register(dr)
    rr = f(r)
    vc.prove_eq(rr, cell, "reciprocal of the reciprocal")
    vc.cover("dual")


@harness(B + "get_transformation_matrix", cases=["array", "list"], covers=["matrix"])
def transformation(vc, L, kind):
    a, b = vc.matrix("a"), vc.matrix("b")
    vc.assume(det3(a) != 0)
    lst = kind == "list"
    P = L.get(B + "get_transformation_matrix")([list(x) for x in a] if lst else a, [list(x) for x in b] if lst else b)
    vc.check(getattr(P, "shape", None) == (3, 3), "the result is a (3, 3) array")
    vc.prove_eq(P.T @ a, b, "transformed = P^T @ original")
    vc.prove_eq(det3(P) * det3(a), det3(b), "determinant is the signed ratio of volumes")
    vc.cover("matrix")
