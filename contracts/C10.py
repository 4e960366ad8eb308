"""The tables of constants agree with crystallography: every entry is an obligation (a finite set, all of it)"""
import ast
import json
import os
from fractions import Fraction

from contracts.common import *
from pyvc.loader import REPO
from pyvc.sym import to_fraction
from spec import hs_points

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = {int(k): v for k, v in json.load(open(os.path.join(HERE, "spec", "space_groups.json"))).items()}
K = "wulfric.constants."
H = Fraction(1, 2)
T3 = Fraction(1, 3)
CENTRING = dict(P=[], I=[(H, H, H)], F=[(0, H, H), (H, 0, H), (H, H, 0)], C=[(H, H, 0)], A=[(0, H, H)],
                R=[(2 * T3, T3, T3), (T3, 2 * T3, 2 * T3)])
NAMES = dict(cP="CUB", cF="FCC", cI="BCC", tP="TET", tI="BCT", oP="ORC", oF="ORCF", oI="ORCI", oA="ORCC", oC="ORCC", hP="HEX", hR="RHL", mP="MCL", mC="MCLC", aP="TRI")
TYPES = sorted({r["family"] + r["symbol"] for r in REF.values()})


def det(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def solve(m, v):
    """x with m x = v"""
    d = det(m)
    out = []
    for k in range(3):
        n = [[v[i] if j == k else m[i][j] for j in range(3)] for i in range(3)]
        out.append(det(n) / d)
    return out


@harness("wulfric.constants._space_groups.CRYSTAL_FAMILY", "wulfric.constants._space_groups.CENTRING_TYPE",
         "wulfric.constants._space_groups.INVERSION_SYMMETRY", covers=["table"])
def space_groups(vc, L):
    k = L.load(K + "_space_groups")
    vc.cover("table")
    for t in ("CRYSTAL_FAMILY", "CENTRING_TYPE", "INVERSION_SYMMETRY"):
        vc.check(sorted(getattr(k, t)) == list(range(1, 231)) and all(type(x) is int for x in getattr(k, t)), f"{t}: exactly the 230 space groups")
    for sg in range(1, 231):
        r = REF[sg]
        vc.check(k.CRYSTAL_FAMILY.get(sg) == r["family"], f"crystal family of {sg}", str(k.CRYSTAL_FAMILY.get(sg)))
        vc.check(k.CENTRING_TYPE.get(sg) == r["symbol"], f"centring type of {sg}", str(k.CENTRING_TYPE.get(sg)))
        vc.check(k.INVERSION_SYMMETRY.get(sg) is r["inversion"], f"presence of inversion in {sg}", str(k.INVERSION_SYMMETRY.get(sg)))


@harness(K + "_bravais_lattices.BRAVAIS_LATTICES", covers=["table"])
def bravais(vc, L):
    b = L.load(K + "_bravais_lattices")
    s = L.load(K + "_sc_convention")
    vc.cover("table")
    vc.check(sorted(b.BRAVAIS_LATTICES) == TYPES, "every Bravais lattice type that can occur, each once", str(sorted(b.BRAVAIS_LATTICES)))
    for lt in TYPES:
        vc.check(s.SC_BRAVAIS_LATTICE_SHORT_NAMES.get(lt) == NAMES[lt], f"short name of {lt}")
        vc.check(isinstance(s.SC_BRAVAIS_LATTICE_LONG_NAMES.get(lt), str) and s.SC_BRAVAIS_LATTICE_LONG_NAMES[lt] != "", f"long name of {lt}")


@harness(K + "_sc_convention.SC_CONVENTIONAL_TO_PRIMITIVE", K + "_hpkot_convention.HPKOT_CONVENTIONAL_TO_PRIMITIVE", cases=["SC", "HPKOT"], covers=["table"])
def matrices(vc, L, convention):
    tab = getattr(L.load(K + f"_{convention.lower()}_convention"), convention + "_CONVENTIONAL_TO_PRIMITIVE")
    vc.cover("table")
    vc.check(set(tab) == set(TYPES), "a matrix for every lattice type", str(sorted(set(tab) ^ set(TYPES))))
    for lt in TYPES:
        if lt not in tab:
            continue
        m = [[to_fraction(float(x)) for x in row] for row in numpy.asarray(tab[lt], dtype=float)]
        cent = CENTRING[lt[1]]
        if convention == "SC":  # SC: primitive rhombohedral cell, C centring for oA
            cent = [] if lt == "hR" else CENTRING["C"] if lt == "oA" else cent
        n = 1 + len(cent)
        d = det(m)
        vc.check(d == Fraction(1, n), f"{lt}: the determinant is the inverse number of lattice points", str(d))
        if d == 0:
            continue
        for v in [(1, 0, 0), (0, 1, 0), (0, 0, 1), *cent]:
            x = solve(m, [Fraction(i) for i in v])
            vc.check(all(i.denominator == 1 for i in x), f"{lt}: {tuple(map(str, v))} is an integer combination of the columns", str(x))
        # (with the determinant 1/n the columns generate nothing else)


@harness(K + "_sc_convention.SC_DEFAULT_K_PATHS", K + "_hpkot_convention.HPKOT_DEFAULT_K_PATHS", cases=["SC", "HPKOT"], covers=["table"])
def paths(vc, L, convention):
    k = L.load(K + f"_{convention.lower()}_convention")
    p = getattr(k, convention + "_DEFAULT_K_PATHS")
    listed = list(k.HPKOT_EXTENDED_BL_SYMBOLS if convention == "HPKOT" else k.SC_BRAVAIS_LATTICE_VARIATIONS)
    vc.cover("table")
    vc.check(sorted(listed) == sorted(hs_points.SYMBOLS[convention]), "list of symbols", str(set(listed) ^ set(hs_points.SYMBOLS[convention])))
    for s in hs_points.SYMBOLS[convention]:
        if not vc.check(isinstance(p.get(s), str), f"{s} has a k-path"):
            continue
        sub = [x.split("-") for x in p[s].split("|")]
        vc.check(all(len(x) >= 2 and all(x) for x in sub), f"{s}: the k-path is well formed", p[s])
        names = {n for x in sub for n in x}
        vc.check(names <= set(hs_points.parameters(convention, s)[1]), f"{s}: the k-path uses points of the symbol", p[s])
        vc.check(all(a != b for x in sub for a, b in zip(x, x[1:])), f"{s}: no segment of zero length", p[s])


@harness(K + "_atoms.ATOM_SPECIES", covers=["table"])
def species(vc, L):
    k = L.load(K + "_atoms")
    vc.cover("table")
    a = list(k.ATOM_SPECIES)
    vc.check(len(set(a)) == len(a), "no duplicates", str([x for x in a if a.count(x) > 1]))
    vc.check(len({x.lower() for x in a}) == len(a), "no duplicates but for the case")
    vc.check(all(isinstance(x, str) and 1 <= len(x) <= 2 and x.isalpha() and x == x.capitalize() for x in a), "symbols of elements")
    for node in ast.walk(ast.parse(open(os.path.join(REPO, "src", "wulfric", "constants", "_atoms.py")).read())):
        if isinstance(node, ast.Dict) and len(node.keys) > 20:
            ks = [x.value for x in node.keys if isinstance(x, ast.Constant)]
            vc.check(len(set(ks)) == len(ks), f"no duplicated key in a table of species", str([x for x in ks if ks.count(x) > 1]))
