"""from_params / get_params / get_volume / get_scalar_products"""
from pyvc.api import *
from pyvc import lemmas
from pyvc.lemmas import cross, dot, norm_of

B = "wulfric.cell._basic_manipulation."
G = "wulfric.geometry._geometry."
EPS = sym.to_fraction(2.220446049250313e-16)


def valid_params(vc):
    p = vc.reals("a b c alpha beta gamma")
    a, b, c, al, be, ga = p
    # get_angle refuses vectors shorter than the machine epsilon
    vc.assume(And(a > EPS, b > EPS, c > EPS))
    vc.assume(And(a > 0, b > 0, c > 0, al > 0, be > 0, ga > 0, al < 180, be < 180, ga < 180))
    vc.assume(And(al < be + ga, be < al + ga, ga < al + be, al + be + ga < 360))
    return p


def accepting(L):
    """contract of parallelepiped_check (proved in C03): nothing is known but that it did not raise"""
    L.stub("wulfric.cell._basic_manipulation.parallelepiped_check", lambda *a, **k: True)


@harness(B + "from_params", B + "get_params", B + "get_scalar_products", G + "get_volume", G + "get_angle",
         assumed=[G + "parallelepiped_check (C03)"], covers=["cell"])
def params_to_cell(vc, L):
    accepting(L)
    p = valid_params(vc)
    a, b, c, al, be, ga = p
    gram = lemmas.half_angles(vc, al, be, ga)
    cell = L.get(B + "from_params")(*p)
    vc.cover("cell")
    vc.check(np_shape(cell) == (3, 3), "the cell is a (3, 3) array", str(np_shape(cell)))
    # orientation
    vc.prove(And(cell[0][0] > 0, as_real(cell[0][1]) == 0, as_real(cell[0][2]) == 0), "first vector along +x")
    s = sym.cos_sin(vc.degrees(ga))[1]
    lemmas.prod_pos(vc, b, s)
    vc.prove(And(as_real(cell[1][1]) > 0, as_real(cell[1][2]) == 0), "second vector in the xy plane with positive y")
    root = sym.sqrt(gram)
    lemmas.quot_pos(vc, root, s)
    lemmas.prod_pos(vc, c, root / s)
    lemmas.prod_pos(vc, cell[0][0] * cell[1][1], cell[2][2])
    det = npshim.np.linalg.det(cell)
    vc.prove_eq(det, cell[0][0] * cell[1][1] * cell[2][2], "determinant of the triangular matrix")
    vc.prove(And(as_real(cell[2][2]) > 0), "third vector above the xy plane")
    lemmas.prod_pos(vc, cell[0][0], cell[1][1])
    vc.prove(as_real(det) > 0, "right-handed")
    # metric
    co = [sym.cos_sin(vc.degrees(t))[0] for t in (al, be, ga)]
    r = [cell[i] for i in range(3)]
    for i, (x, nm) in enumerate(zip((a, b, c), "abc")):
        vc.prove_eq(dot(r[i], r[i]), x * x, f"square of {nm}")
    vc.prove_eq(dot(r[1], r[2]), b * c * co[0], "b.c = b c cos(alpha)")
    vc.prove_eq(dot(r[0], r[2]), a * c * co[1], "a.c = a c cos(beta)")
    vc.prove_eq(dot(r[0], r[1]), a * b * co[2], "a.b = a b cos(gamma)")
    # get_params gives back the parameters
    q = L.get(B + "get_params")(cell)
    for x, y, nm in zip(q, p, ("a", "b", "c", "alpha", "beta", "gamma")):
        vc.prove_eq(x, y, f"get_params(from_params(...)): {nm}")
    sp = L.get(B + "get_scalar_products")(cell)
    vc.prove_eq(obj(list(sp)), obj([b * c * co[0], a * c * co[1], a * b * co[2]]), "get_scalar_products")
    # volumes
    v6 = L.get(G + "get_volume")(*p)
    v1 = L.get(G + "get_volume")(cell)
    vc.prove_eq(v6, det, "volume from the parameters")
    vc.prove_eq(v1, det, "volume from the cell")
    vc.prove(v6 >= 0, "volume is not negative")


def np_shape(x):
    return getattr(x, "shape", None)


@harness(B + "from_params", B + "get_params", assumed=[G + "get_angle (C21)", G + "parallelepiped_check (C03)"], covers=["cell"])
def cell_to_params(vc, L):
    """rebuilding a cell from its parameters gives the same metric"""
    accepting(L)
    cell = vc.matrix("c")
    r = [cell[i] for i in range(3)]
    det = dot(r[0], cross(r[1], r[2]))
    vc.assume(det != 0)
    n = [norm_of(x) for x in r]
    c = ctx()
    for i in range(3):
        vc.assume(n[i] > sym.to_fraction(2.220446049250313e-16))
    # contract of get_angle (C21): degrees in [0, 180] whose cosine is the normalised scalar product
    calls = []

    def get_angle(v1, v2, radians=False):
        key = []
        for v in (v1, v2):
            k = [i for i in range(3) if all(x is y for x, y in zip(v, r[i]))]
            vc.check(len(k) == 1, "get_angle is called with vectors of the cell")
            key.append(k[0])
        i, j = sorted(key)
        calls.append((i, j))
        d = vc.real(f"angle{i}{j}")
        vc.assume(And(d >= 0, d <= 180))
        co, si = sym.cos_sin(vc.degrees(d))
        c.fact(zreal(co * (n[i] * n[j])) == zreal(dot(r[i], r[j])))
        c.fact(zreal(co) == zreal(dot(r[i], r[j])) / zreal(n[i] * n[j]))
        return vc.degrees(d) if radians else d

    L.stub(B + "get_angle", get_angle)
    p = L.get(B + "get_params")(cell)
    vc.check(calls == [(1, 2), (0, 2), (0, 1)], "angles of the pairs (2,3), (1,3), (1,2)", str(calls))
    for i in range(3):
        vc.prove_eq(p[i], n[i], f"length of vector {i + 1}")
    # the Gram determinant of the normalised vectors is (det / (a b c))^2 > 0
    cos = [sym.cos_sin(vc.degrees(x))[0] for x in p[3:]]
    sg = sym.cos_sin(vc.degrees(p[5]))[1]
    u = [dot(r[i], r[j]) / (n[i] * n[j]) for i, j in ((1, 2), (0, 2), (0, 1))]
    gram = lambda x, y, z: 1 + 2 * x * y * z - x * x - y * y - z * z
    m = n[0] * n[1] * n[2]
    vc.prove_eq(gram(*u), (det / m) * (det / m), "Gram determinant")
    lemmas.prod_pos(vc, n[0], n[1])
    lemmas.prod_pos(vc, n[0] * n[1], n[2])
    vc.lemma("quot_nz", lambda x, y: And(x != 0, y > 0), lambda x, y: SReal(zreal(x) / zreal(y)) != 0, det, m)
    lemmas.square_pos(vc, det / m)
    vc.register((det / m) * (det / m))
    vc.prove(gram(*u) > 0, "Gram determinant of the normalised vectors is positive")
    lemmas.substitution(vc, "gram", gram, cos, u)
    vc.prove(gram(*cos) > 0, "Gram determinant is positive")
    # sin(gamma) > 0, otherwise the first two vectors would be collinear
    vc.lemma("singamma", lambda x, y, z, s: And(gram(x, y, z) > 0, s >= 0, s * s == 1 - z * z, x * x <= 1, y * y <= 1), lambda x, y, z, s: s > 0, *cos, sg)
    new = L.get(B + "from_params")(*p)
    vc.cover("cell")
    q = [new[i] for i in range(3)]
    for i in range(3):
        for j in range(i, 3):
            vc.prove_eq(dot(q[i], q[j]), dot(r[i], r[j]), f"metric {i + 1}{j + 1}")


@harness(G + "get_volume", B + "get_scalar_products", covers=["volume"])
def volume_of_cell(vc, L):
    cell = vc.matrix("c")
    f = L.get(G + "get_volume")
    r = [cell[i] for i in range(3)]
    det = dot(r[0], cross(r[1], r[2]))
    v = f(cell)
    vc.cover("volume")
    vc.prove(And(as_real(v) >= 0, Or(as_real(v) == det, as_real(v) == -det)), "|det|")
    vc.prove_eq(f([list(x) for x in r]), v, "list input")
    for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)):
        vc.prove_eq(f(r[a], r[b], r[c]), v, f"vectors in the order {a + 1}{b + 1}{c + 1}")
    vc.prove_eq(f(-r[0], r[1], r[2]), v, "reversed vector")
    sp = L.get(B + "get_scalar_products")(cell)
    vc.prove_eq(obj(list(sp)), obj([dot(r[1], r[2]), dot(r[0], r[2]), dot(r[0], r[1])]), "get_scalar_products: pairs (2,3), (1,3), (1,2)")
    for n in (0, 2, 4, 5, 7):
        st, e = vc.call(f, *[r[0]] * n)
        vc.check(st == "raise" and isinstance(e, ValueError), f"{n} arguments are refused", str(e))
