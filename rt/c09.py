import numpy as np
import wulfric

from rt import gen, lattices, xtal
from rt.c07 import params
from spec import hs_points
from wulfric.constants import HPKOT_DEFAULT_K_PATHS, SC_DEFAULT_K_PATHS
from wulfric.crystal import get_conventional, get_primitive, hpkot_get_extended_bl_symbol, sc_get_variation

HP1 = [*range(143, 150), 151, 153, 157, *range(159, 164)]
SHORT = dict(cP="CUB", cF="FCC", cI="BCC", tP="TET", oP="ORC", oI="ORCI", oC="ORCC", oA="ORCC", hP="HEX", mP="MCL")


def sign(x, tol):
    """possible signs of x known up to tol"""
    return {1} if x > tol else {-1} if x < -tol else {-1, 0, 1}


def sc_allowed(lt, conv, prim, eps=3e-5, ang=3e-4):
    """allowed answers; 'ValueError' where the convention leaves the boundary undefined"""
    a, b, c, al, be, ga = params(conv)
    if lt in SHORT:
        return {SHORT[lt]}
    out = set()
    if lt == "tI":
        s = sign(c - a, 2e-6 * a)
        return {{-1: "BCT1", 1: "BCT2", 0: "ValueError"}[k] for k in s}
    if lt == "oF":
        if b - a < 3e-5 or c - b < 3e-5:
            out.add("ValueError")
            if b - a < 3e-6 or c - b < 3e-6:
                return out
        s = sign(1 / a**2 - 1 / b**2 - 1 / c**2, eps)
        e = abs(1 / a**2 - 1 / b**2 - 1 / c**2)
        if e < 1e-7:
            return out | {"ORCF3"}
        return out | {{1: "ORCF1", -1: "ORCF2", 0: "ORCF3"}[k] for k in s}
    if lt == "hR":
        s = sign(al - 90, ang)
        if abs(al - 90) < 1e-6:
            return {"ValueError"}
        return {{-1: "RHL1", 1: "RHL2", 0: "ValueError"}[k] for k in s}
    if lt == "mC":
        k = 2 * np.pi * np.linalg.inv(prim).T
        kg = params(k)[5]
        s = sign(kg - 90, ang)
        if abs(kg - 90) < 1e-6:
            s = {0}
        alr = np.radians(al)
        e = b * np.cos(alr) / c + b**2 * np.sin(alr) ** 2 / a**2 - 1
        t = {0} if abs(e) < 1e-7 else sign(e, eps)
        if 1 in s:
            out.add("MCLC1")
        if 0 in s:
            out.add("MCLC2")
        if -1 in s:
            out |= {{-1: "MCLC3", 0: "MCLC4", 1: "MCLC5"}[i] for i in t}
        return out
    if lt == "aP":
        ka, kb, kg = params(2 * np.pi * np.linalg.inv(conv).T)[3:]
        sa, sb, sg = sign(ka - 90, ang), sign(kb - 90, ang), sign(kg - 90, ang)
        if abs(kg - 90) < 1e-6:
            sg = {0}
        if 0 in sa or 0 in sb:
            out.add("ValueError")
        if abs(ka - 90) < 1e-6 or abs(kb - 90) < 1e-6:
            return {"ValueError"}
        if 1 in sa and 1 in sb:
            if 1 in sg:
                out.add("TRI1a")
            if 0 in sg:
                out.add("TRI2a")
        if -1 in sa and -1 in sb:
            if -1 in sg:
                out.add("TRI1b")
            if 0 in sg:
                out.add("TRI2b")
        return out
    raise AssertionError(lt)


def hpkot_allowed(lt, conv, sg, eps=1e-6):
    a, b, c, al, be, ga = params(conv)
    if lt in ("cI", "tP", "oP", "mP"):
        return {lt + "1"}
    if lt in ("cP", "cF"):
        return {lt + ("1" if sg <= 206 else "2")}
    if lt == "hP":
        return {"hP1" if sg in HP1 else "hP2"}
    pick = lambda x, lo, hi: {{-1: lo, 1: hi, 0: lo}[k] for k in sign(x, eps)}
    if lt == "tI":
        return pick(c / a - 1, "tI1", "tI2")
    if lt == "oF":
        x = sign(a * a * (1 / a**2 - 1 / b**2 - 1 / c**2), eps)
        y = sign(a * a * (1 / c**2 - 1 / a**2 - 1 / b**2), eps)
        out = set()
        if 1 in x:
            out.add("oF1")
        if 1 in y and x != {1}:
            out.add("oF2")
        if x != {1} and y != {1}:
            out.add("oF3")
        return out
    if lt == "oI":
        m = max(a, b, c)
        return {n for n, v in (("oI1", c), ("oI2", a), ("oI3", b)) if v >= m * (1 - eps)}
    if lt == "oC":
        return pick(a / b - 1, "oC1", "oC2")
    if lt == "oA":
        return pick(b / c - 1, "oA1", "oA2")
    if lt == "hR":
        return pick(np.sqrt(3) * a / (np.sqrt(2) * c) - 1, "hR1", "hR2")
    if lt == "mC":
        r = np.radians(be)
        s = sign(b / (a * np.sin(r)) - 1, eps)
        out = set()
        if s != {1}:
            out.add("mC1")
        if 1 in s:
            t = sign(-a * np.cos(r) / c + (a * np.sin(r) / b) ** 2 - 1, eps)
            out |= {{-1: "mC2", 0: "mC2", 1: "mC3"}[k] for k in t}
        return out
    if lt == "aP":
        ra = params(2 * np.pi * np.linalg.inv(conv).T)[3:]
        out = set()
        if min(ra) >= 90 - 1e-4:
            out.add("aP2")
        if max(ra) <= 90 + 1e-4:
            out.add("aP3")
        return out
    raise AssertionError(lt)


def check(T, cell, atoms, data, seen, pass_data=True):
    lt = data.crystal_family + data.centring_type
    kw = dict(spglib_data=data) if pass_data else {}
    conv, _ = get_conventional(cell, atoms, convention="HPKOT", spglib_data=data)
    sym = hpkot_get_extended_bl_symbol(cell, atoms, **kw)
    want = hpkot_allowed(lt, conv, data.space_group_number)
    T.ok(sym in want, "HPKOT: symbol is the one whose published inequality holds", lambda: f"{sym}, expected {sorted(want)} for {params(conv)}")
    T.ok(sym in HPKOT_DEFAULT_K_PATHS and sym in hs_points.SYMBOLS["HPKOT"], "HPKOT: a returned symbol has a path", sym)
    path, pts = wulfric.kpoints.get_path_and_points(cell, atoms, convention="HPKOT", spglib_data=data)
    T.ok(set(p for s in path.split("|") for p in s.split("-")) <= set(pts), "HPKOT: a returned symbol has a set of points")
    seen[sym] = seen.get(sym, 0) + 1
    conv, _ = get_conventional(cell, atoms, convention="SC", spglib_data=data)
    prim, _ = get_primitive(cell, atoms, convention="SC", spglib_data=data)
    try:
        var = sc_get_variation(cell, atoms, **kw)
    except ValueError as e:
        var = "ValueError"
    want = sc_allowed(lt, conv, prim)
    T.ok(var in want, "SC: variation is the one whose published inequality holds", lambda: f"{var}, expected {sorted(want)} for {params(conv)}")
    seen[var] = seen.get(var, 0) + 1
    if var != "ValueError":
        T.ok(var in SC_DEFAULT_K_PATHS and var in hs_points.SYMBOLS["SC"], "SC: a returned variation has a path", var)
        path, pts = wulfric.kpoints.get_path_and_points(cell, atoms, convention="SC", spglib_data=data)
        T.ok(set(p for s in path.split("|") for p in s.split("-")) <= set(pts), "SC: a returned variation has a set of points")


def any_angles(T):
    """a triclinic variation is never named against its inequality, whatever the reciprocal angles are"""
    import inspect

    from wulfric.crystal import _sc_variation as module

    f = getattr(module, "_TRI_variation", None)
    if f is None or [p for p in inspect.signature(f).parameters][:3] != ["k_alpha", "k_beta", "k_gamma"]:
        return
    rng = T.rng
    for _ in T.loop(3000, seconds=5, name="reciprocal angles of any kind"):
        ang = [float(rng.choice([60, 80, 100, 120, 90, 89.99995, 90.00005, 89.999, 90.001])) if rng.random() < 0.7 else float(rng.uniform(30, 150)) for _ in range(3)]
        with T.case(reciprocal_angles=ang):
            try:
                r = f(*ang)
            except ValueError:
                continue
            hi, lo, eq = [x > 90 + 1e-4 - 1e-9 for x in ang], [x < 90 - 1e-4 + 1e-9 for x in ang], [abs(x - 90) <= 1e-4 + 1e-9 for x in ang]
            want = {"TRI1a": all(hi), "TRI1b": all(lo), "TRI2a": hi[0] and hi[1] and eq[2], "TRI2b": lo[0] and lo[1] and eq[2]}
            T.ok(want.get(r, True), "the inequality of the triclinic variation holds", r)


def run(T):
    rng = T.rng
    any_angles(T)
    seen = {}
    T.seen = seen
    for i in T.loop(1500, seconds=25, name="one-atom crystals with chosen parameters"):
        r = lattices.crystal(rng, rotate=bool(i % 3), choose=bool(i % 2))
        if r is None:
            continue
        cell, atoms, info = r
        with T.case(cell=cell, atoms=atoms, info=info):
            try:
                data = wulfric.get_spglib_data(cell, atoms)
            except RuntimeError:
                continue
            check(T, cell, atoms, data, seen, i % 4 != 0)
    for cell, atoms, data, info in xtal.stream(T, 2, 25):
        with T.case(**xtal.given(cell, atoms, info)):
            check(T, cell, atoms, data, seen, rng.random() < 0.8)
    T.notes = seen
