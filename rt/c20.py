import numpy as np
import wulfric
from wulfric.cell import *  # noqa
from wulfric import cell as C
from wulfric.constants import SC_BRAVAIS_LATTICE_VARIATIONS

from rt import lattices

# conventional-to-primitive (rows) of the published setting
PRIM = dict(lattices.PRIM, Cm=np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]]), Co=np.array([[0.5, -0.5, 0], [0.5, 0.5, 0], [0, 0, 1]]))


def gram(m):
    m = np.array(m, float)
    return m @ m.T


def expected(name, p):
    """metric of the primitive cell in the published setting"""
    P = lattices.from_params
    if name == "SC_CUB":
        return gram(np.eye(3) * p[0])
    if name == "SC_FCC":
        return gram(PRIM["F"] * p[0])
    if name == "SC_BCC":
        return gram(PRIM["I"] * p[0])
    if name == "SC_TET":
        return gram(np.diag([p[0], p[0], p[1]]))
    if name == "SC_BCT":
        return gram(PRIM["I"] @ np.diag([p[0], p[0], p[1]]))
    if name == "SC_ORC":
        return gram(np.diag(p))
    if name == "SC_ORCF":
        return gram(PRIM["F"] @ np.diag(p))
    if name == "SC_ORCI":
        return gram(PRIM["I"] @ np.diag(p))
    if name == "SC_ORCC":
        return gram(PRIM["Co"] @ np.diag(p))
    if name == "SC_HEX":
        return gram(P(p[0], p[0], p[1], 90, 90, 120))
    if name == "SC_RHL":
        return gram(P(p[0], p[0], p[0], p[1], p[1], p[1]))
    if name == "SC_MCL":
        return gram(P(p[0], p[1], p[2], p[3], 90, 90))
    if name == "SC_MCLC":
        return gram(PRIM["Cm"] @ P(p[0], p[1], p[2], p[3], 90, 90))
    if name == "SC_TRI":
        return gram(P(*p))
    raise AssertionError(name)


def params(rng, name):
    l = lambda: float(np.round(rng.uniform(0.5, 8), 3))
    s = sorted((l(), l(), l()))
    al = float(np.round(rng.uniform(30, 89.5), 2))
    return {
        "SC_CUB": lambda: [l()], "SC_FCC": lambda: [l()], "SC_BCC": lambda: [l()], "SC_TET": lambda: [l(), l()], "SC_BCT": lambda: [l(), l()],
        "SC_ORC": lambda: s, "SC_ORCF": lambda: s, "SC_ORCI": lambda: s, "SC_ORCC": lambda: [*s[:2], l()], "SC_HEX": lambda: [l(), l()],
        "SC_RHL": lambda: [l(), float(np.round(rng.uniform(20, 118), 2))], "SC_MCL": lambda: [l(), *s[1:], al], "SC_MCLC": lambda: [l(), *s[1:], al],
        "SC_TRI": lambda: [l(), l(), l(), *tri(rng)],
    }[name]()


def tri(rng):
    while True:
        a = np.round(rng.uniform(30, 150, size=3), 2)
        t = sorted(a)
        if t[2] < t[0] + t[1] - 3 and sum(t) < 355:
            return [float(x) for x in a]


NAMES = ["SC_CUB", "SC_FCC", "SC_BCC", "SC_TET", "SC_BCT", "SC_ORC", "SC_ORCF", "SC_ORCI", "SC_ORCC", "SC_HEX", "SC_RHL", "SC_MCL", "SC_MCLC", "SC_TRI"]
FAMILY = dict(SC_CUB="CUB", SC_FCC="FCC", SC_BCC="BCC", SC_TET="TET", SC_BCT="BCT", SC_ORC="ORC", SC_ORCF="ORCF", SC_ORCI="ORCI", SC_ORCC="ORCC", SC_HEX="HEX", SC_RHL="RHL", SC_MCL="MCL", SC_MCLC="MCLC", SC_TRI="TRI")
SHORT = dict(cP="CUB", cF="FCC", cI="BCC", tP="TET", tI="BCT", oP="ORC", oF="ORCF", oI="ORCI", oA="ORCC", oC="ORCC", hP="HEX", hR="RHL", mP="MCL", mC="MCLC", aP="TRI")
ATOM = dict(positions=[[0.0, 0, 0]], species=["Cr"])


def run(T):
    rng = T.rng
    for i in T.loop(1400, seconds=15, name="cells"):
        name = NAMES[i % len(NAMES)]
        p = params(rng, name)
        with T.case(function=name, parameters=p):
            f = getattr(C, name)
            m = f(*p)
            T.ok(np.shape(m) == (3, 3), f"{name}: shape")
            g = expected(name, p)
            T.close(gram(m), g, f"{name}: metric of the primitive cell in the published setting", 1e-9)
            T.ok(np.linalg.det(m) > 0, f"{name}: right-handed")
            if name == "SC_TRI":
                r = f(*p, input_reciprocal=True)
                T.close(gram(2 * np.pi * np.linalg.inv(r).T), g, "SC_TRI: reciprocal parameters", 1e-8)
            if i % 4 == 0:
                try:
                    d = wulfric.get_spglib_data(m, ATOM)
                except RuntimeError:
                    continue
                lt = SHORT[d.crystal_family + d.centring_type]
                if lt == FAMILY[name]:
                    try:
                        v = wulfric.crystal.sc_get_variation(m, ATOM, spglib_data=d)
                    except ValueError:
                        continue
                    T.ok(v.startswith(FAMILY[name]), f"{name}: variation belongs to the lattice", v)
    for v in SC_BRAVAIS_LATTICE_VARIATIONS:
        for form in (v, v.lower(), v.upper()):
            with T.case(variation=form):
                m = C.sc_get_example(form)
                got = wulfric.crystal.sc_get_variation(m, ATOM)
                T.ok(got == v, "SC variation computed from the example is the one asked for", (form, got))
    base = {v.rstrip("12345ab") for v in SC_BRAVAIS_LATTICE_VARIATIONS}
    for b in sorted(base):
        for form in (b, b.lower()):
            with T.case(lattice=form):
                got = wulfric.crystal.sc_get_variation(C.sc_get_example(form), ATOM)
                T.ok(got.startswith(b), "example of the lattice belongs to it", (form, got))
    for bad in ("", "cub1", "xyz", "BCT3", "TRI3", "ORCF4", "MCLC6", "RHL3", None, 5, "CU", "cP", " cub", ["cub"]):
        with T.case(name=repr(bad)):
            T.raises(ValueError, lambda: C.sc_get_example(bad), "unknown names are refused")
    for a in ((10, 10, 30), (130, 120, 115), (0, 90, 90), (90, 180, 90), (-90, 90, 90), (200, 90, 90), (90, 45, 45), (120, 120, 120)):
        with T.case(angles=a):
            T.raises(ValueError, lambda: C.SC_TRI(1.0, 1.0, 1.0, *a), "SC_TRI: inadmissible parameters are refused")
    for l in ((0, 1, 1), (1, -1, 1), (1, 1, -2)):
        with T.case(lengths=l):
            T.raises(ValueError, lambda: C.SC_TRI(*l, 90, 90, 90), "SC_TRI: inadmissible parameters are refused")
