"""sc_get_variation and hpkot_get_extended_bl_symbol follow the published inequalities"""
from contracts.common import *

V_ = "wulfric.crystal._sc_variation."
H = "wulfric.crystal._hpkot_extended_bl_symbol.hpkot_get_extended_bl_symbol"
SC = V_ + "sc_get_variation"
SHORT = dict(cP="CUB", cF="FCC", cI="BCC", tP="TET", oP="ORC", oI="ORCI", oC="ORCC", oA="ORCC", hP="HEX", mP="MCL")
HP1 = [*range(143, 150), 151, 153, 157, *range(159, 164)]
ALL = ["cP", "cF", "cI", "tP", "tI", "oP", "oF", "oI", "oC", "oA", "hP", "hR", "mP", "mC", "aP"]


class Variation(Callees):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        vc = self.vc
        self.p = dict(conv=vc.reals("a b c alpha beta gamma"), kprim=vc.reals("ka kb kc k_alpha k_beta k_gamma"),
                      kconv=vc.reals("ra rb rc r_alpha r_beta r_gamma"))
        for q in self.p.values():
            positive_params(vc, q)
        self.conv = self.prim = None

    def on_cell(self, kind, convention, m):
        self.vc.check(convention == self.convention, f"the cell of the convention {self.convention}", convention)
        if kind == "conventional":
            self.conv = m
            self.params.append((m, self.p["conv"]))
        else:
            self.prim = m

    def on_reciprocal(self, cell, r):
        if self.conv is not None and same(cell, self.conv):
            self.params.append((r, self.p["kconv"]))
        elif self.prim is not None and same(cell, self.prim):
            self.params.append((r, self.p["kprim"]))


def sc_spec(vc, lt, st, r, w, eps, ang):
    """(published condition) of every answer; eps, ang are the tolerances"""
    a, b, c, al, be, ga = w.p["conv"]
    kg = w.p["kprim"][5]
    ra, rb, rg = w.p["kconv"][3:]
    inv = lambda x: 1 / (x * x)
    if lt == "tI":
        return {"BCT1": a > c, "BCT2": c > a, ValueError: a == c}
    if lt == "oF":
        x = inv(a) - inv(b) - inv(c)
        bnd = Or(a >= b - eps, b >= c - eps)
        return {"ORCF1": And(x > eps, Not(bnd)), "ORCF2": And(x < -eps, Not(bnd)), "ORCF3": And(x <= eps, x >= -eps, Not(bnd)), ValueError: bnd}
    if lt == "hR":
        return {"RHL1": al < 90 - ang, "RHL2": al > 90 + ang, ValueError: And(al >= 90 - ang, al <= 90 + ang)}
    if lt == "mC":
        co, si = sym.cos_sin(vc.degrees(al))
        x = b * co / c + b * b * si * si / (a * a)
        lo = kg < 90 - ang
        ok = al <= 90 + ang
        return {"MCLC1": And(ok, kg > 90 + ang), "MCLC2": And(ok, kg <= 90 + ang, kg >= 90 - ang), "MCLC3": And(ok, lo, x < 1 - eps),
                "MCLC4": And(ok, lo, x <= 1 + eps, x >= 1 - eps), "MCLC5": And(ok, lo, x > 1 + eps), ValueError: Not(ok)}
    if lt == "aP":
        hi = lambda t: t > 90 + ang
        lo = lambda t: t < 90 - ang
        eq = lambda t: And(t <= 90 + ang, t >= 90 - ang)
        return {"TRI1a": And(hi(ra), hi(rb), hi(rg)), "TRI1b": And(lo(ra), lo(rb), lo(rg)), "TRI2a": And(hi(ra), hi(rb), eq(rg)),
                "TRI2b": And(lo(ra), lo(rb), eq(rg)), ValueError: Or(eq(ra), eq(rb))}
    return {SHORT[lt]: True}


def c07_triclinic(vc, w):
    """postcondition of get_conventional (C07): all acute with gamma the largest, or all non-acute with gamma the smallest"""
    ra, rb, rg = w.p["kconv"][3:]
    vc.assume(Or(And(ra < 90, rb < 90, rg < 90, rg >= ra, rg >= rb), And(ra >= 90, rb >= 90, rg >= 90, rg <= ra, rg <= rb)))


def path_exists(vc, L, r, convention):
    t = getattr(L.load("wulfric.constants"), f"{convention}_DEFAULT_K_PATHS")
    vc.check(r in t and isinstance(t[r], str) and len(t[r]) > 0, "the symbol has a k-path", str(r))


@harness(SC, V_ + "_BCT_variation", V_ + "_ORCF_variation", V_ + "_RHL_variation", V_ + "_MCLC_variation", V_ + "_TRI_variation",
         "wulfric._numerical.compare_with_tolerance", cases=[(lt, t) for lt in ALL for t in ("default", "given")],
         assumed=["get_conventional, get_primitive (C06-C08)", "get_params, get_reciprocal (C02, C04)"], covers=["answer"])
def sc_variation(vc, L, lt, tol):
    cell = vc.matrix("cell")
    atoms = dict(positions=[[0, 0, 0]], names=["X"])
    eps = vc.real("symprec")
    vc.assume(eps >= 0)
    if tol == "given":
        ang = vc.real("angle_tolerance")
        vc.assume(ang >= 0)
    else:
        ang = sym.to_fraction(1e-4)
    data = dict(crystal_family=lt[0], centring_type=lt[1], symprec=eps, angle_tolerance=ang if tol == "given" else -1, space_group_number=vc.int("sg"))
    Variation.convention = "sc"
    w = Variation(vc, L, cell, atoms, data=data)
    data = w.data
    if lt == "aP":
        c07_triclinic(vc, w)
    if lt == "mC":
        vc.assume(w.p["conv"][3] <= 90)
    st, r = vc.call(L.get(SC), cell, atoms, data)
    vc.cover("answer")
    spec = sc_spec(vc, lt, st, r, w, eps, ang)
    if st == "raise":
        vc.check(isinstance(r, ValueError), "the only refusal is a ValueError", f"{type(r).__name__}: {r}")
        vc.prove(spec.get(ValueError, False), "refused only where the convention leaves the boundary undefined")
        return
    vc.check(isinstance(r, str) and r in spec, f"a variation of {lt}", str(r))
    if r in spec:
        vc.prove(spec[r], "the published inequality of the returned variation holds")
        for other in spec:
            if other != r:
                vc.prove(Not(spec[other]), f"the inequality of another answer does not hold")
    path_exists(vc, L, r, "SC")


@harness(SC, V_ + "_TRI_variation", assumed=["get_conventional (C06: any cell)", "get_params, get_reciprocal (C02, C04)"], covers=["answer"])
def triclinic_any(vc, L):
    """whatever the conventional cell is: a triclinic variation is never named against its inequality"""
    cell = vc.matrix("cell")
    eps, ang = vc.real("symprec"), vc.real("angle_tolerance")
    vc.assume(And(eps >= 0, ang >= 0))
    Variation.convention = "sc"
    w = Variation(vc, L, cell, dict(positions=[[0, 0, 0]], names=["X"]), data=dict(crystal_family="a", centring_type="P", symprec=eps, angle_tolerance=ang, space_group_number=vc.int("sg")))
    st, r = vc.call(L.get(SC), cell, dict(positions=[[0, 0, 0]], names=["X"]), w.data)
    spec = sc_spec(vc, "aP", st, r, w, eps, ang)
    if st == "ok" and r in spec:
        vc.cover("answer")
        vc.prove(spec[r], "the published inequality of the returned variation holds")


@harness(SC, H, cases=[(f, c) for f in ("sc", "hpkot") for c in ("none", "data", "wrong type", "bad atoms", "bad data", "dict")], covers=["done"])
def data_handling(vc, L, which, case):
    cell = vc.matrix("cell")
    atoms = dict(positions=[[0, 0, 0]], names=["X"])
    data = dict(crystal_family="c", centring_type="I", space_group_number=229)
    Variation.convention = which
    reject = {"bad atoms": "atoms", "bad data": "data"}.get(case)
    w = Variation(vc, L, cell, atoms, data=data, reject=reject)
    data = w.data
    f = L.get(SC if which == "sc" else H)
    arg = {"none": (), "wrong type": ("data",), "dict": (dict(crystal_family="c"),)}.get(case, (data,))
    st, r = vc.call(f, cell, atoms, *arg)
    vc.cover("done")
    vc.check("validate_atoms" in w.log, "atoms are validated")
    if case in ("none", "data"):
        vc.check(st == "ok" and r == ("BCC" if which == "sc" else "cI1"), "answer", str(r))
        vc.check((("get_spglib_data" if case == "none" else "validate_spglib_data") in w.log), "data are made from, or validated against, the crystal")
    elif case in ("wrong type", "dict"):
        vc.check(st == "raise" and isinstance(r, TypeError), "TypeError for something that is not SpglibData", str(r))
    else:
        vc.check(st == "raise" and isinstance(r, Bad), "the refusal is passed on", str(r))


def hpkot_spec(vc, lt, w, sg):
    """weak form of the published inequalities (both neighbours are right at a boundary)"""
    a, b, c, al, be, ga = w.p["conv"]
    ra, rb, rg = w.p["kconv"][3:]
    inv = lambda x: 1 / (x * x)
    if lt in ("cI", "tP", "oP", "mP"):
        return {lt + "1": True}
    if lt in ("cP", "cF"):
        return {lt + "1": And(sg >= 195, sg <= 206), lt + "2": And(sg >= 207, sg <= 230)}
    if lt == "hP":
        h = Or([sg == n for n in HP1])
        return {"hP1": h, "hP2": Not(h)}
    if lt == "tI":
        return {"tI1": c <= a, "tI2": c >= a}
    if lt == "oF":
        x, y = inv(a) - inv(b) - inv(c), inv(c) - inv(a) - inv(b)
        return {"oF1": x >= 0, "oF2": y >= 0, "oF3": And(x <= 0, y <= 0)}
    if lt == "oI":
        return {"oI1": And(c >= a, c >= b), "oI2": And(a >= b, a >= c), "oI3": And(b >= a, b >= c)}
    if lt == "oC":
        return {"oC1": a <= b, "oC2": a >= b}
    if lt == "oA":
        return {"oA1": b <= c, "oA2": b >= c}
    if lt == "hR":
        return {"hR1": 3 * a * a <= 2 * c * c, "hR2": 3 * a * a >= 2 * c * c}
    if lt == "mC":
        co, si = sym.cos_sin(vc.degrees(be))
        x = -a * co / c + (a * si / b) * (a * si / b)
        return {"mC1": b <= a * si, "mC2": And(b >= a * si, x <= 1), "mC3": And(b >= a * si, x >= 1)}
    if lt == "aP":
        return {"aP2": And(ra >= 90, rb >= 90, rg >= 90), "aP3": And(ra <= 90, rb <= 90, rg <= 90)}


FAMILY = {"c": (195, 230), "h": (143, 194), "t": (75, 142), "o": (16, 74), "m": (3, 15), "a": (1, 2)}


@harness(H, cases=ALL, assumed=["get_conventional (C06, C07)", "get_params, get_reciprocal (C02, C04)"], covers=["answer"])
def hpkot_symbol(vc, L, lt):
    cell = vc.matrix("cell")
    atoms = dict(positions=[[0, 0, 0]], names=["X"])
    sg = vc.int("sg")
    vc.assume(And(sg >= FAMILY[lt[0]][0], sg <= FAMILY[lt[0]][1]))
    data = dict(crystal_family=lt[0], centring_type=lt[1], space_group_number=sg)
    Variation.convention = "hpkot"
    w = Variation(vc, L, cell, atoms, data=data)
    data = w.data
    if lt == "aP":
        ra, rb, rg = w.p["kconv"][3:]
        vc.assume(Or(And(ra < 90, rb < 90, rg < 90), And(ra >= 90, rb >= 90, rg >= 90)))
    if lt == "hR":
        a, c = w.p["conv"][0], w.p["conv"][2]
        vc.root_hint(a)
        vc.root_hint(c)
    st, r = vc.call(L.get(H), cell, atoms, data)
    vc.check(st == "ok", "the decision is total", f"{r}")
    vc.cover("answer")
    if st != "ok":
        return
    spec = hpkot_spec(vc, lt, w, sg)
    vc.check(isinstance(r, str) and r in spec, f"an extended symbol of {lt}", str(r))
    if r in spec:
        vc.prove(spec[r], "the published inequality of the returned symbol holds")
    path_exists(vc, L, r, "HPKOT")
