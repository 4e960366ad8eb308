"""Mathematical lemmas used by the contracts (each proved over fresh variables, instances checked)."""
import z3

from .sym import And, Implies, Or, SReal, ctx, zreal, zbool
from . import sym, npshim
from .npshim import obj


def abs_bound(vc, d, m):
    """d*d <= m*m, m >= 0  =>  -m <= d <= m"""
    return vc.lemma("abs_bound", lambda d, m: And(d * d <= m * m, m >= 0), lambda d, m: And(d <= m, -m <= d), d, m)


def unit(vc, d, m):
    """-m <= d <= m, m > 0  =>  -1 <= d/m <= 1"""
    return vc.lemma(
        "unit",
        lambda d, m: And(d <= m, -m <= d, m > 0),
        lambda d, m: And(SReal(zreal(d) / zreal(m)) <= 1, SReal(zreal(d) / zreal(m)) >= -1),
        d,
        m,
    )


def square_nonneg(vc, x):
    return vc.lemma("square", lambda x: x == x, lambda x: x * x >= 0, x)


def square_pos(vc, x):
    return vc.lemma("square_pos", lambda x: x != 0, lambda x: x * x > 0, x)


def prod_pos(vc, x, y):
    return vc.lemma("prod_pos", lambda x, y: And(x > 0, y > 0), lambda x, y: x * y > 0, x, y)


def quot_pos(vc, x, y):
    return vc.lemma("quot_pos", lambda x, y: And(x > 0, y > 0), lambda x, y: SReal(zreal(x) / zreal(y)) > 0, x, y)


def quot_nonneg(vc, x, y):
    return vc.lemma("quot_nonneg", lambda x, y: And(x >= 0, y > 0), lambda x, y: SReal(zreal(x) / zreal(y)) >= 0, x, y)


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def cauchy_schwarz(vc, u, v):
    """-1 <= u.v/(|u||v|) <= 1 for vectors of non-zero length; |u|, |v| as computed by norm"""
    m = norm_of(u) * norm_of(v)
    d = dot(u, v)
    k = cross(u, v)
    for x in k:
        square_nonneg(vc, x)
    vc.prove_eq(d * d + dot(k, k), dot(u, u) * dot(v, v), "Lagrange identity")
    vc.prove(zreal(d * d) <= zreal(m * m), "Cauchy-Schwarz")
    vc.prove(m > 0, "product of lengths is positive")
    abs_bound(vc, d, m)
    unit(vc, d, m)
    return d / m


def norm_of(u):
    return npshim.np.linalg.norm(obj(list(u)))


def gram_of(vc, alpha, beta, gamma):
    ca, cb, cg = [sym.cos_sin(vc.degrees(t))[0] for t in (alpha, beta, gamma)]
    return 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg


def parallelepiped(al, be, ga):
    return And(al > 0, be > 0, ga > 0, al < 180, be < 180, ga < 180, al < be + ga, be < al + ga, ga < al + be, al + be + ga < 360)


def half_angles(vc, alpha, beta, gamma):
    """0 < angles, triangle inequalities and sum < 360 (an obligation here): the Gram determinant
    1 + 2 cos cos cos - cos^2 - cos^2 - cos^2 is positive.  The proof uses the addition theorems."""
    ok = vc.c.engine.lemma_once("half-angles", _half_angles)
    if vc.prove(parallelepiped(alpha, beta, gamma), "hypothesis of lemma half-angles") and ok:
        g = gram_of(vc, alpha, beta, gamma)
        vc.fact(g > 0)
        for t in (alpha, beta, gamma):
            vc.prove(sym.cos_sin(vc.degrees(t))[1] > 0, "positive sine")
    return gram_of(vc, alpha, beta, gamma)


def _half_angles(vc):
    c = ctx()
    alpha, beta, gamma = [vc.fresh("angle") for _ in range(3)]
    vc.assume(parallelepiped(alpha, beta, gamma))
    x, y, z = (beta + gamma - alpha) / 2, (alpha + gamma - beta) / 2, (alpha + beta - gamma) / 2
    vc.prove(And(x > 0, y > 0, z > 0, x + y + z < 180), "x, y, z > 0 and x + y + z < 180")
    (cx, sx), (cy, sy), (cz, sz) = [sym.cos_sin(vc.degrees(t)) for t in (x, y, z)]
    cos = [sym.cos_sin(vc.degrees(t)) for t in (alpha, beta, gamma)]
    pairs = [((cy, sy), (cz, sz)), ((cx, sx), (cz, sz)), ((cx, sx), (cy, sy))]
    # addition theorems (trusted facts of trigonometry)
    for (co, si), ((c1, s1), (c2, s2)) in zip(cos, pairs):
        c.ring.add_rule(co.e, 1, zreal(c1 * c2 - s1 * s2))
        c.fact(co.e == zreal(c1 * c2 - s1 * s2))
    s = sym.cos_sin(vc.degrees(x + y + z))
    sin_s = sx * (cy * cz - sy * sz) + cx * (sy * cz + cy * sz)
    c.fact(zreal(s[1]) == zreal(sin_s))
    vc.prove(And(sx > 0, sy > 0, sz > 0, s[1] > 0), "positive sines")
    ca, cb, cg = (t[0] for t in cos)
    G = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    vc.prove_eq(G, 4 * sin_s * sx * sy * sz, "Gram determinant = 4 sin(s) sin(s-alpha) sin(s-beta) sin(s-gamma)")
    prod_pos(vc, s[1], sx)
    prod_pos(vc, s[1] * sx, sy)
    prod_pos(vc, s[1] * sx * sy, sz)
    c.ring.add_rule(s[1].e, 1, zreal(sin_s))
    vc.prove(G > 0, "Gram determinant is positive")


def substitution(vc, name, f, xs, ys):
    """xs == ys (obligations) => f(xs) == f(ys)"""
    n = len(xs)
    return vc.lemma(
        "subst_" + name,
        lambda *a: And([a[i] == a[n + i] for i in range(n)]),
        lambda *a: as_r(f(*a[:n])) == as_r(f(*a[n:])),
        *xs,
        *ys,
    )


def as_r(x):
    return x if isinstance(x, SReal) else SReal(zreal(x))
