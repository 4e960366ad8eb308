import numpy as np
import wulfric

from rt import gen, xtal
from rt.c06 import check_atoms
from wulfric.crystal import get_conventional, get_primitive


CENTRINGS = dict(I=[(0, 0, 0), (0.5, 0.5, 0.5)], F=[(0, 0, 0), (0.5, 0.5, 0), (0.5, 0, 0.5), (0, 0.5, 0.5)], C=[(0, 0, 0), (0.5, 0.5, 0)])


def boundary(T):
    """atoms next to the boundary of the cell: coordinates at the edges of the rounding to 8 decimals"""
    rng = T.rng
    for _ in T.loop(300, seconds=25, name="centred crystals with atoms next to the boundary of the cell"):
        c = str(rng.choice(list(CENTRINGS)))
        a = rng.uniform(3, 8, size=3)
        if rng.random() < 0.4:
            a[1] = a[0]
        cell = np.diag(a)
        if rng.random() < 0.3:
            cell[2, 0] = -0.2 * a[2]
        e = rng.choice([-5e-9, 5e-9, -5e-9 + 1e-17, 4.9999999e-9, -1e-8, -2.5e-9, 2.5e-9, 1e-8, -6e-9, 1.5e-8])
        e = e * (rng.random(size=3) < 1 / 3)
        b = rng.uniform(0, 0.5, size=3) * (rng.random(size=3) < 0.5) + [0, 0, 0.2]
        pos = np.array([np.array(s) + e + x for s in CENTRINGS[c] for x in ([0, 0, 0], b)])
        atoms = dict(names=["Cr", "Br"] * len(CENTRINGS[c]), positions=pos)
        try:
            data = wulfric.get_spglib_data(cell, atoms)
        except RuntimeError:
            continue
        for conv in ("HPKOT", "SC"):
            with T.case(cell=cell, atoms=atoms, convention=conv):
                pc, pa = get_primitive(cell, atoms, convention=conv, spglib_data=data)
                T.close(abs(np.linalg.det(pc)), abs(np.linalg.det(data.primitive_cell)), "one lattice point per cell", 1e-4, abs(np.linalg.det(pc)))
                n = abs(np.linalg.det(cell) / np.linalg.det(pc))
                T.close(len(pa["positions"]) * n, len(pos), "each distinct atom appears exactly once (count)", 1e-3)
                why = gen.same_crystal(cell, pos, [int(t) for t in data.original_types], pc, pa["positions"], [int(t) for t in pa["spglib_types"]])
                T.ok(why is None, "primitive cell describes the given crystal in the same orientation", why)


def run(T):
    rng = T.rng
    for cell, atoms, data, info in xtal.stream(T, 2, 45):
        lt = data.crystal_family + data.centring_type
        types = [int(t) for t in data.original_types]
        for conv in ("HPKOT", "SC", "spglib"):
            with T.case(**xtal.given(cell, atoms, info, convention=conv, lattice_type=lt)):
                c0, a0, d0 = xtal.frozen(cell), xtal.frozen(atoms), xtal.data_state(data)
                kw = dict(spglib_data=data) if rng.random() < 0.7 else {}
                if conv != "HPKOT" or rng.random() < 0.5:
                    kw["convention"] = xtal.case_variants(rng, conv)
                pc, pa = get_primitive(cell, atoms, **kw)
                cc, ca = get_conventional(cell, atoms, convention=conv, spglib_data=data)
                check_atoms(T, atoms, types, pa, "primitive")
                pt = [int(t) for t in pa["spglib_types"]]
                why = gen.same_crystal(cc, ca["positions"], [int(t) for t in ca["spglib_types"]], pc, pa["positions"], pt, translation=conv == "spglib")
                T.ok(why is None, "primitive cell describes the crystal of the conventional cell in the same orientation", why)
                why = gen.same_crystal(cell, atoms["positions"], types, pc, pa["positions"], pt)
                T.ok(why is None, "primitive cell describes the given crystal in the same orientation", why)
                # one lattice point
                n = xtal.CENTRED.get(lt[1], 1 if conv == "SC" else 3)
                T.close(abs(np.linalg.det(cc) / np.linalg.det(pc)), n, "volume is the conventional volume over the number of lattice points", 1e-6)
                T.close(abs(np.linalg.det(pc)), abs(np.linalg.det(data.primitive_cell)), "one lattice point per cell", 1e-4, abs(np.linalg.det(data.primitive_cell)))
                m = pc @ np.linalg.inv(data.primitive_cell)
                T.ok(gen.integer_matrix(m, 2e-3), "vectors are lattice translations", m)
                T.ok(np.linalg.det(pc) * np.linalg.det(cc) > 0 or conv == "spglib", "handedness is kept")
                # each atom once
                p = np.array(pa["positions"])
                T.ok(len(p) * n == len(ca["positions"]), "each distinct atom appears exactly once (count)", (len(p), n, len(ca["positions"])))
                d = p[:, None] - p[None]
                d -= np.round(d)
                d = np.linalg.norm(d @ pc, axis=2) + 10 * np.eye(len(p))
                T.ok(d.min() > 1e-3, "each distinct atom appears exactly once (no twins)")
                T.ok(xtal.same(cell, c0) and xtal.same(atoms, a0), "input is not modified")
                T.ok(xtal.same(xtal.data_state(data), d0), "spglib_data is not modified")
                if rng.random() < 0.35 and conv != "spglib":
                    # output as input
                    try:
                        d2 = wulfric.get_spglib_data(pc, pa)
                    except RuntimeError:
                        d2 = None
                    if d2 is not None:
                        T.ok(d2.space_group_number == data.space_group_number, "output passed back gives the same space group", (d2.space_group_number, data.space_group_number))
                        p2, _ = get_primitive(pc, pa, convention=conv, spglib_data=d2)
                        T.close(abs(np.linalg.det(p2)), abs(np.linalg.det(pc)), "output passed back has the same volume", 1e-4, abs(np.linalg.det(pc)))
                if "spglib_data" in kw:
                    pc += 1.0
                    pa["positions"] += 1.0
                    T.ok(xtal.same(xtal.data_state(data), d0), "spglib_data is not shared with the output")
    boundary(T)
    cell, atoms = np.eye(3) * 3.0, dict(positions=[[0, 0, 0.0]], species=["Cr"])
    with T.case(cell=cell, atoms=atoms):
        data = wulfric.get_spglib_data(cell, atoms)
        T.raises(Exception, lambda: get_primitive(cell, atoms, convention="unknown"), "unsupported convention is refused")
        T.raises(ValueError, lambda: get_primitive(cell * 1.1, atoms, spglib_data=data), "spglib_data of another cell are refused")
        T.raises(TypeError, lambda: get_primitive(cell, atoms, spglib_data={}), "foreign spglib_data are refused")
