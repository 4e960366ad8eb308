"""get_angle / get_spherical"""
from pyvc.api import *
from pyvc import lemmas
from pyvc.lemmas import cross, dot, norm_of

G = "wulfric.geometry._geometry."
EPS = sym.to_fraction(2.220446049250313e-16)


def two_vectors(vc):
    u, v = vc.vector("u"), vc.vector("v")
    for x in (u, v):
        vc.assume(norm_of(x) > EPS)
    return u, v


@harness(G + "get_angle", cases=["array", "list"], covers=["angle"])
def angle(vc, L, kind):
    u, v = two_vectors(vc)
    c = lemmas.cauchy_schwarz(vc, u, v)
    c2 = lemmas.cauchy_schwarz(vc, -u, v)
    f = L.get(G + "get_angle")
    lst = (lambda x: list(x)) if kind == "list" else (lambda x: x)
    d = f(lst(u), lst(v))
    vc.cover("angle")
    vc.prove(And(d >= 0, d <= 180), "in [0, 180]")
    vc.prove(zreal(d * sym.PI / 180) == zreal(sym.arccos(c)), "cosine is the normalised scalar product")
    vc.prove_eq(f(lst(v), lst(u)), d, "symmetric")
    vc.prove_eq(f(lst(u), lst(v), radians=True), d * sym.PI / 180, "radians")
    r = f(lst(-u), lst(v))
    vc.prove_eq(r, 180 - d, "reversed vector")
    vc.prove_eq(f(lst(u), lst(-v)), 180 - d, "reversed second vector")
    t = vc.real("t")
    vc.assume(t > 0)
    w = obj([t * x for x in u])
    n = norm_of(u)
    lemmas.prod_pos(vc, t, n)
    vc.prove_eq(norm_of(w) * norm_of(w), t * t * n * n, "length of the scaled vector (squared)")
    vc.lemma("eqsq", lambda x, y: And(x * x == y * y, x >= 0, y >= 0), lambda x, y: x == y, norm_of(w), t * n)
    ctx().ring.add_rule(norm_of(w).e, 1, zreal(t * n))
    vc.assume(t * n > EPS)
    vc.prove_eq(f(lst(w), lst(v)), d, "positive scaling of the first vector")
    vc.prove_eq(f(lst(v), lst(w)), d, "positive scaling of the second vector")


@harness(G + "get_angle", covers=["refused"])
def zero_vector(vc, L):
    u = vc.vector("u")
    z = obj([0.0, 0.0, 0.0])
    f = L.get(G + "get_angle")
    for a in ((u, z), (z, u), ([0, 0, 0], list(u))):
        st, e = vc.call(f, *a)
        vc.check(st == "raise" and isinstance(e, ValueError), "zero vector is refused with ValueError", str(e))
    vc.cover("refused")


def frame(vc):
    """orthonormal right-handed frame (q, p x q, p) from a unit quaternion"""
    a, b, c, d = vc.reals("qa qb qc qd")
    ctx().ring.add_rule(d.e, 2, zreal(1 - a * a - b * b - c * c))
    vc.assume(zreal(a * a + b * b + c * c + d * d) == 1)
    R = obj([
        [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
        [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
        [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d],
    ])
    q, s, p = R[:, 0], R[:, 1], R[:, 2]
    for x, y, k in ((p, p, 1), (q, q, 1), (p, q, 0)):
        vc.prove_eq(dot(x, y), k, "the frame is orthonormal")
    vc.prove_eq(obj(cross(p, q)), obj(list(s)), "the frame is right-handed")
    return q, s, p


@harness(G + "get_spherical", cases=[(True,), (False,)], covers=["off axis y>=0", "off axis y<0"])
def spherical(vc, L, degrees):
    """v = r (cos(theta) p + sin(theta) (cos(phi) q + sin(phi) p x q)) for any orthonormal axes p, q of any length"""
    q, s, p = frame(vc)
    x, y, z = vc.reals("x y z")
    lp, lq = vc.reals("lp lq")
    vc.assume(And(lp > 0, lq > 0))
    v = obj([x * q[i] + y * s[i] + z * p[i] for i in range(3)])
    vc.prove_eq(dot(v, v), x * x + y * y + z * z, "square of the length")
    vc.assume(x * x + y * y > 0)
    lemmas.square_nonneg(vc, z)
    vc.prove(x * x + y * y + z * z > 0, "not a zero vector")
    r, rho = sym.sqrt(x * x + y * y + z * z), sym.sqrt(x * x + y * y)
    for t, m in ((z, r), (x, rho), (y, rho)):
        lemmas.square_nonneg(vc, x)
        lemmas.square_nonneg(vc, y)
        lemmas.abs_bound(vc, t, m)
        lemmas.unit(vc, t, m)
    vc.register(x * x + y * y + z * z)
    vc.lemma("quot_sq", lambda n, d: And(n > 0, d > 0), lambda n, d: SReal(zreal(n) / zreal(d)) > 0, x * x + y * y, x * x + y * y + z * z)
    vc.register((x * x + y * y) / (x * x + y * y + z * z))
    lemmas.quot_pos(vc, rho, r)
    vc.root_hint(rho / r)
    if bool(y >= 0):
        lemmas.quot_nonneg(vc, y, rho)
    else:
        lemmas.quot_pos(vc, -y, rho)
    vc.root_hint((y if bool(y >= 0) else -y) / rho)
    f = L.get(G + "get_spherical")
    R, th, ph = f(v, in_degrees=degrees, polar_axis=obj([lp * t for t in p]), radial_line_zero=obj([lq * t for t in q]))
    vc.prove_eq(R, r, "r is the length")
    th, ph = as_real(th), as_real(ph)
    if degrees:
        th, ph = th * sym.PI / 180, ph * sym.PI / 180
    td, pd = th * 180 / sym.PI, ph * 180 / sym.PI
    if td._concrete() is not None:
        # within the tolerance of the axis
        vc.prove(Or(And(td == 0, pd == 0), And(td == 180, pd == 180)), "on the axis: polar and azimuth both 0 or both pi")
        vc.cover("on axis")
        return
    vc.prove(And(td >= 0, td <= 180), "polar angle in [0, pi]")
    vc.prove(And(pd >= 0, pd <= 360), "azimuth in [0, 2 pi]")
    ct, st = sym.cos_sin(th)
    cp, sp = sym.cos_sin(ph)
    vc.cover("off axis y>=0" if bool(y >= 0) else "off axis y<0")
    vc.prove_eq(r * st * cp, x, "component along the zero direction")
    vc.prove_eq(r * st * sp, y, "component along p x q (right-hand rule)")
    vc.prove_eq(r * ct, z, "component along the polar axis")


@harness(G + "get_spherical", cases=["+", "-"], covers=["on axis"])
def spherical_on_axis(vc, L, side):
    """on the polar axis: r is the length, azimuth 0 (pi on the negative axis)"""
    q, s, p = frame(vc)
    z, lp, lq = vc.reals("z lp lq")
    vc.assume(And(lp > 0, lq > 0, z > 0))
    sg = 1 if side == "+" else -1
    vc.lemma("unit_vector", lambda a, b, c: a * a + b * b + c * c == 1, lambda a, b, c: Or(2 * a > 1, 2 * a < -1, 2 * b > 1, 2 * b < -1, 2 * c > 1, 2 * c < -1), *p)
    v = obj([sg * z * p[i] for i in range(3)])
    R, th, ph = L.get(G + "get_spherical")(v, polar_axis=obj([lp * t for t in p]), radial_line_zero=obj([lq * t for t in q]))
    vc.prove_eq(R, z, "r is the length")
    vc.prove_eq(th, 0 if side == "+" else 180, "polar angle")
    vc.prove_eq(ph, 0 if side == "+" else 180, "azimuth")
    vc.cover("on axis")
