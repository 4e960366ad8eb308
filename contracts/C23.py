"""_hpkot_get_points and _sc_get_points return the published points of every symbol"""
import itertools

from contracts.common import *
from pyvc.sym import cos_sin, tan
from spec import hs_points

HP = "wulfric.kpoints._hpkot_points."
SC = "wulfric.kpoints._sc_points."
SHORT = dict(CUB="cP", FCC="cF", BCC="cI", TET="tP", BCT="tI", ORC="oP", ORCF="oF", ORCI="oI", ORCC="oC", HEX="hP", RHL="hR", MCL="mP", MCLC="mC", TRI="aP")


class Fn:
    cos = staticmethod(lambda x: cos_sin(x)[0])
    sin = staticmethod(lambda x: cos_sin(x)[1])
    tan = staticmethod(tan)


def lattice_type(convention, symbol):
    if convention == "HPKOT":
        return symbol[:2]
    for k in sorted(SHORT, key=len, reverse=True):
        if symbol.startswith(k):
            return SHORT[k]


def published_conditions(vc, convention, symbol, p):
    """-> (conditions on the conventional cell, strict defining inequality of the symbol)"""
    a, b, c, al, be, ga = p
    lt = lattice_type(convention, symbol)
    right = lambda *x: And([t == 90 for t in x])
    inv = lambda x: 1 / (x * x)
    base, own = True, True
    if lt[0] == "c":
        base = And(a == b, b == c, right(al, be, ga))
    elif lt[0] == "t":
        base = And(a == b, right(al, be, ga))
    elif lt[0] == "o":
        base = right(al, be, ga)
    elif lt == "hP" or (lt == "hR" and convention == "HPKOT"):
        base = And(a == b, right(al, be), ga == 120)
    elif lt == "hR":
        base = And(a == b, b == c, al == be, be == ga, al < 120)
    elif lt[0] == "m":
        base = And(right(al, ga), be >= 90) if convention == "HPKOT" else And(right(be, ga), al <= 90)
    h = convention == "HPKOT"
    if lt == "tI":
        own = (c < a) if symbol in ("tI1", "BCT1") else (c > a)
    elif lt == "oF":
        if not h:
            base = And(base, a < b, b < c)
        first = inv(a) > inv(b) + inv(c)
        third = inv(c) > inv(a) + inv(b)
        own = {"oF1": first, "oF2": third, "oF3": And(inv(a) < inv(b) + inv(c), inv(b) < inv(a) + inv(c), inv(c) < inv(a) + inv(b)),
               "ORCF1": first, "ORCF2": inv(a) < inv(b) + inv(c), "ORCF3": inv(a) == inv(b) + inv(c)}[symbol]
    elif lt == "oI":
        own = {"oI1": And(c > a, c > b), "oI2": And(a > b, a > c), "oI3": And(b > a, b > c), "ORCI": And(a < b, b < c)}[symbol]
    elif lt in ("oC", "oA"):
        own = {"oC1": a < b, "oC2": a > b, "oA1": b < c, "oA2": b > c, "ORCC": a < b}[symbol]
    elif lt == "hR":
        own = {"hR1": 3 * a * a < 2 * c * c, "hR2": 3 * a * a > 2 * c * c, "RHL1": al < 90, "RHL2": al > 90}[symbol]
    elif lt == "mC" and h:
        co, si = cos_sin(vc.degrees(be))
        x = -a * co / c + a * a * si * si / (b * b)
        own = {"mC1": b < a * si, "mC2": And(b > a * si, x < 1), "mC3": And(b > a * si, x > 1)}[symbol]
    elif lt == "mC":
        # k_gamma of the primitive cell: its cosine has the sign of a - b sin(alpha)
        co, si = cos_sin(vc.degrees(al))
        x = b * co / c + b * b * si * si / (a * a)
        own = {"MCLC1": a < b * si, "MCLC2": a == b * si, "MCLC3": And(a > b * si, x < 1), "MCLC4": And(a > b * si, x == 1), "MCLC5": And(a > b * si, x > 1)}[symbol]
    return base, own


def setup(vc, L, convention, symbol):
    cell = vc.matrix("c")
    p = vc.reals("a b c alpha beta gamma")
    positive_params(vc, p)
    w = Callees(vc, L, cell, {})
    w.params.append((cell, p))
    base, own = published_conditions(vc, convention, symbol, p)
    if base is not True:
        vc.assume(base)
    return cell, p, own


def the_points(vc, L, convention, symbol, cell):
    lt = lattice_type(convention, symbol)
    if convention == "HPKOT":
        return vc.call(L.get(HP + "_hpkot_get_points"), conventional_cell=cell, lattice_type=lt, extended_bl_symbol=symbol)
    return vc.call(L.get(SC + "_sc_get_points"), conventional_cell=cell, lattice_type=lt, lattice_variation=symbol)


CASES = [("HPKOT", s) for s in hs_points.SYMBOLS["HPKOT"]] + [("SC", s) for s in hs_points.SYMBOLS["SC"]]
FUNCTIONS = sorted({HP + f"_get_points_table_{n}" for n in hs_points.SYMBOLS["HPKOT"].values()} | {SC + f"_get_points_table_{n}" for n in hs_points.SYMBOLS["SC"].values()})


@harness(HP + "_hpkot_get_points", SC + "_sc_get_points", *FUNCTIONS, cases=CASES, assumed=["get_params (C02)"], covers=["points"], z3_timeout=10000)
def published(vc, L, convention, symbol):
    """names and coordinates of every point of the symbol, for all parameters of the cell"""
    cell, p, own = setup(vc, L, convention, symbol)
    if own is not True:
        vc.assume(own)
    s, r = the_points(vc, L, convention, symbol, cell)
    if not vc.check(s == "ok", "the symbol has points", repr(r)):
        return
    vc.cover("points")
    want = hs_points.points(convention, symbol, *p[:3], vc.degrees(p[3]), vc.degrees(p[4]), fn=Fn)
    if not vc.check(set(r) == set(want), "names of the points", str(sorted(set(r) ^ set(want)))):
        return
    for n, q in want.items():
        vc.prove_eq(r[n], q, f"coordinates of {n} are the published ones")
    vc.check(all(not has_sym(x) and x == 0 for x in r["GAMMA"]), "GAMMA is at the origin")
    for v in r.values():
        vc.check(isinstance(v, numpy.ndarray) and v.shape == (3,), "a point is an array of three numbers")


def numerator(vc, x):
    """a polynomial that is zero where x is (the denominators are not zero: obligations of the divisions)"""
    ring = ctx().ring
    q = ring.reduce(ring.conv(x)).norm()
    out = sym.ring_to_z3(ring, sym.Q(q.n))
    # common factor of a power of one variable
    return z3.simplify(out, som=False)


# the defining condition of these symbols is an equation; their tables are those of ORCF1, MCLC1, MCLC3
BOUNDARY = ("ORCF3", "MCLC2", "MCLC4")


@harness(HP + "_hpkot_get_points", SC + "_sc_get_points", cases=[c for c in CASES if c[1] not in BOUNDARY], assumed=["get_params (C02)"], covers=["points"], z3_timeout=20000)
def distinct(vc, L, convention, symbol):
    """points of one symbol are pairwise distinct inside of the region of the symbol"""
    cell, p, own = setup(vc, L, convention, symbol)
    if own is not True:
        vc.assume(own)
    a, b, c, al, be, ga = p
    if lattice_type(convention, symbol)[0] == "m":
        # the vectors u, v of the oblique plane of spglib's standard cell are Delaunay reduced
        u, v, co = (a, c, -cos_sin(vc.degrees(be))[0]) if convention == "HPKOT" else (b, c, cos_sin(vc.degrees(al))[0])
        vc.assume(And(u * co < v, v * co < u, co > 0))
        if lattice_type(convention, symbol) == "mC":
            vc.assume(2 * v * co < u)  # of the two possible vectors of the plane that are not centred the shorter one
    if symbol == "RHL2":  # cos is decreasing, sin(45) = cos(45)
        co, si = cos_sin(vc.degrees(al / 2))
        vc.fact(And(Implies(al / 2 < 60, 2 * co > 1), Implies(al / 2 > 45, co < si)))
    s, r = the_points(vc, L, convention, symbol, cell)
    if not vc.check(s == "ok", "the symbol has points", repr(r)):
        return
    vc.cover("points")
    for m, n in itertools.combinations(r, 2):
        d = [zreal(x - y) for x, y in zip(r[m], r[n])]
        try:
            k = [ctx().ring.const_value(x) for x in d]
        except Exception:
            k = [None] * 3
        if any(x for x in k if x is not None):
            continue  # a constant, non-zero difference
        vc.prove(Or([SBool(numerator(vc, x) != 0) for x in d]), f"{m} and {n} are different points")
    vc.check(len(r) > 1, "more than one point")


def metric(vc, convention, symbol, p, m):
    """inverse metric (times |.| free factor 2 pi) of the primitive cell m.T @ conventional"""
    a, b, c, al, be, ga = p
    lt = lattice_type(convention, symbol)
    g = numpy.empty((3, 3), dtype=object)
    ca = cb = cg = 0
    if lt == "hP" or (lt == "hR" and convention == "HPKOT"):
        b, cg = a, -0.5
    elif lt == "hR":
        b = c = a
        if symbol == "RHL1":
            ca = Fn.cos(vc.degrees(al))
        else:
            s = Fn.sin(vc.degrees(al / 2))
            ca = 1 - 2 * s * s  # half-angle theorem
        cb = cg = ca
    elif lt[0] == "m":
        if convention == "HPKOT":
            cb = Fn.cos(vc.degrees(be))
        else:
            ca = Fn.cos(vc.degrees(al))
    elif lt[0] == "c":
        b = c = a
    elif lt[0] == "t":
        b = a
    elif lt == "aP":
        ca, cb, cg = (Fn.cos(vc.degrees(x)) for x in (al, be, ga))
    l = (a, b, c)
    co = {(0, 1): cg, (0, 2): cb, (1, 2): ca}
    for i in range(3):
        for j in range(3):
            g[i, j] = l[i] * l[j] * (1 if i == j else co[min(i, j), max(i, j)])
    g = m.T @ g @ m
    # adjugate = inverse times the determinant
    out = numpy.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            r, s = [x for x in range(3) if x != j], [x for x in range(3) if x != i]
            out[i, j] = (g[r[0], s[0]] * g[r[1], s[1]] - g[r[0], s[1]] * g[r[1], s[0]]) * (-1) ** (i + j)
    return out


GS = [g for g in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(g)]


@harness(HP + "_hpkot_get_points", SC + "_sc_get_points", cases=CASES, assumed=["get_params (C02)"], covers=["points"], z3_timeout=5000)
def bragg(vc, L, convention, symbol):
    """every point of the path but GAMMA is on a Bragg plane of the reciprocal lattice of the primitive cell:
    2 k.G = G.G for a reciprocal vector G (identity in the parameters of the cell); halves of G trivially"""
    cell, p, own = setup(vc, L, convention, symbol)
    if own is not True:
        vc.assume(own)
    s, r = the_points(vc, L, convention, symbol, cell)
    if not vc.check(s == "ok", "the symbol has points", repr(r)):
        return
    vc.cover("points")
    k = L.load("wulfric.constants." + ("_sc_convention" if convention == "SC" else "_hpkot_convention"))
    m = numpy.array(getattr(k, convention + "_CONVENTIONAL_TO_PRIMITIVE")[lattice_type(convention, symbol)], dtype=object)
    m = numpy.array([[SReal(zreal(x)) for x in row] for row in m], dtype=object)
    path = getattr(k, convention + "_DEFAULT_K_PATHS")[symbol]
    names = list(dict.fromkeys(x for sub in path.split("|") for x in sub.split("-")))
    w = metric(vc, convention, symbol, p, m)
    ring = ctx().ring
    planes = []
    for g in GS:
        wg = [sum(w[i, j] * g[j] for j in range(3)) for i in range(3)]
        planes.append((g, wg, sum(g[i] * wg[i] for i in range(3))))
    for n in names:
        if n == "GAMMA":
            continue
        if not vc.check(n in r, f"{n} is defined"):
            continue
        best = None
        for g, wg, gg in sorted(planes, key=lambda t: sum(abs(x) for x in t[0])):
            if ring.equal(zreal(2 * sum(r[n][i] * wg[i] for i in range(3))), zreal(gg)):
                best = g
                break
        vc.check(best is not None, f"{n} is on a Bragg plane", str(best))
