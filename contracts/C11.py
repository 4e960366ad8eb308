"""get_path_and_points: the path, its points, their coordinates and the inverted points"""
import json
import os

from contracts.common import *
from contracts.C23 import lattice_type
from spec import hs_points

KP = "wulfric.kpoints."
F = KP + "_path_and_points.get_path_and_points"
REF = {int(k): v for k, v in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "space_groups.json"))).items()}
CASES = [(c, s) for c in ("HPKOT", "SC") for s in hs_points.SYMBOLS[c]]


class Points(Callees):
    """the callees of get_path_and_points; the high-symmetry points of the symbol are arbitrary (C23)"""

    def __init__(self, vc, L, cell, atoms, convention, symbol, names, **k):
        super().__init__(vc, L, cell, atoms, **k)
        self.convention, self.symbol = convention, symbol
        self.points = {n: vc.fresh_array((3,), n) if n != "GAMMA" else numpy.array([0.0, 0.0, 0.0]) for n in names}
        self.lattice_type = None
        L.stub(X + "_sc_variation.sc_get_variation", lambda cell, atoms, spglib_data=None: self._symbol("SC", cell, atoms, spglib_data))
        L.stub(X + "_hpkot_extended_bl_symbol.hpkot_get_extended_bl_symbol", lambda cell, atoms, spglib_data=None: self._symbol("HPKOT", cell, atoms, spglib_data))
        L.stub(KP + "_sc_points._sc_get_points", lambda conventional_cell, lattice_type, lattice_variation: self._points("SC", conventional_cell, lattice_type, lattice_variation))
        L.stub(KP + "_hpkot_points._hpkot_get_points", lambda conventional_cell, lattice_type, extended_bl_symbol: self._points("HPKOT", conventional_cell, lattice_type, extended_bl_symbol))

    def _symbol(self, convention, cell, atoms, data):
        self.vc.check(convention == self.convention, "the symbol of the convention")
        self.vc.check(same(cell, self.cell), "callee gets the given cell")
        self.atoms_ok(atoms)
        self.vc.check(data is self.data, "callee gets the data")
        return self.symbol

    def _points(self, convention, conv_cell, lt, symbol):
        self.vc.check(convention == self.convention and symbol == self.symbol, "points of the symbol", str(symbol))
        self.vc.check(lt == self.data.crystal_family + self.data.centring_type, "points of the lattice type", str(lt))
        self.vc.check(("conventional", convention.lower()) in self.cells and same(conv_cell, self.cells["conventional", convention.lower()]), "points are made from the conventional cell of the convention")
        return {n: p.copy() for n, p in self.points.items()}

    def on_reciprocal(self, cell, r):
        # C04: reciprocal cells of non-degenerate cells are non-degenerate
        self.vc.assume(det3(r) != 0)

    def recip(self, cell):
        for m, r in self.recips:
            if same(m, cell):
                return r
        return None


def make(vc, L, convention, symbol, sg, names=None, **k):
    lt = lattice_type(convention, symbol)
    cell = vc.matrix("cell")
    atoms = dict(positions=[[0, 0, 0]], names=["X"])
    names = list(hs_points.parameters(convention, symbol)[1]) if names is None else names
    return cell, atoms, Points(vc, L, cell, atoms, convention, symbol, names, data=dict(crystal_family=lt[0], centring_type=lt[1], space_group_number=sg), **k)


def upper_lower(vc, convention):
    return vc.pick([convention, convention.lower(), convention.capitalize()])


@harness(F, KP + "_path_and_points.get_path_as_list", KP + "_path_and_points.get_path_as_string", cases=CASES,
         assumed=["get_conventional, get_primitive (C06-C08)", "variation and symbol (C09)", "points of the symbol (C23)", "get_reciprocal (C04)"], covers=["extended", "plain"])
def coordinates(vc, L, convention, symbol):
    """coordinates, inverted points, path; a group of the family with and without inversion"""
    lt = lattice_type(convention, symbol)
    groups = [sg for sg, r in REF.items() if r["family"] + r["symbol"] == lt]
    pair = [next((sg for sg in groups if REF[sg]["inversion"] is i), None) for i in (True, False)]
    sg = vc.pick([x for x in pair if x is not None])
    tr = vc.pick([True, False])
    relative = vc.pick([True, False])
    cell, atoms, w = make(vc, L, convention, symbol, sg)
    f = L.get(F)
    s, r = vc.call(f, cell, atoms, spglib_data=w.data, convention=convention, with_time_reversal=tr, relative=relative)
    if not vc.check(s == "ok", "a path for every symbol", repr(r)):
        return
    vc.check(isinstance(r, tuple) and len(r) == 2, "path and points")
    path, pts = r
    k = L.load("wulfric.constants." + ("_sc_convention" if convention == "SC" else "_hpkot_convention"))
    base = getattr(k, convention + "_DEFAULT_K_PATHS")[symbol]
    extended = not REF[sg]["inversion"] and not tr
    vc.cover("extended" if extended else "plain")
    want = base
    if extended:
        want += "|" + "|".join("-".join(n if n == "GAMMA" else n + "_P" for n in sp.split("-")) for sp in base.split("|"))
    vc.check(path == want, "the path is that of the symbol, extended with the inverted points if and only if there is neither inversion nor time reversal", str(path))
    names = set(w.points) | ({n + "_P" for n in w.points if n != "GAMMA"} if extended else set())
    vc.check(set(pts) == names, "points of the symbol and the inverted ones", str(sorted(set(pts) ^ names)))
    for n in {n for sp in str(path).split("|") for n in sp.split("-")}:
        vc.check(n in pts, "every point of the path is among the points", n)
    labels = L.load("wulfric.constants._kpoints").HS_PLOT_NAMES
    for n in pts:
        vc.check(isinstance(labels.get(n), str) and labels[n] != "", "every point has a plot label", n)
    prim = w.cells.get(("primitive", convention.lower()))
    rp = None if prim is None else w.recip(prim)
    if not vc.check(rp is not None, "reciprocal cell of the primitive cell of the convention"):
        return
    rc = w.recip(cell) if relative else None
    if relative and not vc.check(rc is not None, "reciprocal cell of the given cell"):
        return
    for n in pts:
        if n not in names:
            continue
        q = n[:-2] if n.endswith("_P") and n not in w.points else n
        sign = 1 if q == n else -1
        v = w.points[q] @ rp if n != "GAMMA" else numpy.array([0.0, 0.0, 0.0])
        got = pts[n] @ rc if relative else pts[n]
        vc.check(isinstance(pts[n], numpy.ndarray) and pts[n].shape == (3,), "a point is an array of three numbers", n)
        vc.prove_eq(got, [sign * x for x in v], "absolute coordinates (relative @ reciprocal cell of the given cell) are those of the point, or minus those for the inverted point")


LTS = sorted({r["family"] + r["symbol"] for r in REF.values()})


@harness(F, cases=[(c, lt) for c in ("HPKOT", "SC") for lt in LTS], assumed=["callees as for coordinates"], covers=["extended"])
def all_groups(vc, L, convention, lt):
    """all space groups: extended if and only if there is neither inversion nor time reversal"""
    sg = vc.pick([sg for sg, r in REF.items() if r["family"] + r["symbol"] == lt])
    tr = vc.pick([True, False])
    symbol = next(s for c, s in CASES if c == convention and (lattice_type(c, s) == lt or (lt == "oA" and c == "SC" and s == "ORCC")))
    cell, atoms, w = make(vc, L, convention, symbol, sg)
    w.data.__dict__["crystal_family"], w.data.__dict__["centring_type"] = lt[0], lt[1]
    s, r = vc.call(L.get(F), cell, atoms, spglib_data=w.data, convention=upper_lower(vc, convention), with_time_reversal=tr, relative=False)
    if not vc.check(s == "ok", "a path for every symbol", repr(r)):
        return
    extended = not REF[sg]["inversion"] and not tr
    if not tr:
        vc.cover("extended")
    vc.check(("_P" in r[0]) is extended and any(n.endswith("_P") for n in r[1]) is extended, "extended if and only if there is neither inversion nor time reversal", str(sg))
    vc.check("GAMMA" in r[1], "GAMMA is kept")


@harness(F, cases=["none", "data", "defaults", "wrong type", "dict", "bad atoms", "bad data", "convention"], covers=["done"])
def data_handling(vc, L, case):
    reject = {"bad atoms": "atoms", "bad data": "data"}.get(case)
    cell, atoms, w = make(vc, L, "HPKOT", "cI1", 197, reject=reject)
    f = L.get(F)
    kw = {"none": {}, "defaults": {}, "wrong type": dict(spglib_data="data"), "dict": dict(spglib_data=dict(crystal_family="c"))}.get(case, dict(spglib_data=w.data))
    if case == "convention":
        s, r = vc.call(f, cell, atoms, convention="spglib", **kw)
    elif case == "defaults":
        s, r = vc.call(f, cell, atoms)
        s2, r2 = vc.call(f, cell, atoms, None, "HPKOT", True, True)
        vc.check(s == s2 == "ok" and r[0] == r2[0] and list(r[1]) == list(r2[1]), "defaults: HPKOT, with time reversal, relative")
        for n in r[1]:
            vc.prove_eq(r[1][n], r2[1][n], "defaults: relative coordinates")
        vc.cover("done")
        return
    else:
        s, r = vc.call(f, cell, atoms, **kw)
    vc.cover("done")
    vc.check("validate_atoms" in w.log, "atoms are validated")
    if case in ("none", "data"):
        vc.check(s == "ok", "answer", str(r))
        vc.check(("get_spglib_data" if case == "none" else "validate_spglib_data") in w.log, "data are made from, or validated against, the crystal")
    elif case in ("wrong type", "dict"):
        vc.check(s == "raise" and isinstance(r, TypeError), "TypeError for something that is not SpglibData", str(r))
    elif case == "convention":
        vc.check(s == "raise" and type(r).__name__ == "ConventionNotSupported", "an unknown convention is refused", repr(r))
    else:
        vc.check(s == "raise" and isinstance(r, Bad), "the refusal is passed on", str(r))
