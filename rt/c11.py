import numpy as np
import wulfric

from rt import gen, lattices, xtal
from wulfric.constants import HS_PLOT_NAMES

BASE = None


def paths_ok(T, path, pts, conv):
    for s in path.split("|"):
        names = s.split("-")
        T.ok(len(names) >= 2, f"{conv}: subpath has two points", path)
        for n in names:
            T.ok(n in pts, f"{conv}: point of the path is among the points", n)
    for n in pts:
        T.ok(isinstance(HS_PLOT_NAMES.get(n), str), f"{conv}: point has a plot label", n)


def gram(pts, names):
    p = np.array([pts[n] for n in names])
    return p @ p.T


def check(T, cell, atoms, data, info, rng, choice):
    lt = data.crystal_family + data.centring_type
    inv = data.space_group_number in INV
    for conv in ("HPKOT", "SC"):
        with T.case(**xtal.given(cell, atoms, info, convention=conv)):
            f = wulfric.kpoints.get_path_and_points
            kw = dict(spglib_data=data) if rng.random() < 0.8 else {}
            if conv == "SC" or rng.random() < 0.7:
                kw["convention"] = xtal.case_variants(rng, conv)
            a0, c0 = xtal.frozen(atoms), xtal.frozen(cell)
            try:
                path, pts = f(cell, atoms, relative=False, **kw)
            except ValueError as e:
                if conv == "SC" and ("tolerance" in str(e) or "a == c" in str(e)):
                    raise_skip()
                raise
            paths_ok(T, path, pts, conv)
            path2, rel = f(cell, atoms, relative=True, **kw)
            T.ok(path2 == path and list(rel) == list(pts), f"{conv}: relative and absolute name the same points")
            rcell = 2 * np.pi * np.linalg.inv(cell).T
            s = np.abs(rcell).max()
            for n in pts:
                T.close(rel[n] @ rcell, pts[n], f"{conv}: absolute = relative @ reciprocal cell of the given cell", 1e-7, s)
            d_path, d_rel = f(cell, atoms, **kw)
            T.ok(d_path == path and all(np.allclose(d_rel[n], rel[n]) for n in rel), f"{conv}: relative coordinates, time reversal by default")
            # primitive reciprocal lattice
            # inverted points
            for relative in (True, False):
                ref = rel if relative else pts
                p3, q3 = f(cell, atoms, with_time_reversal=False, relative=relative, **kw)
                if inv:
                    T.ok(p3 == path and list(q3) == list(ref), f"{conv}: not extended with inversion symmetry", p3)
                else:
                    want = "|".join("-".join(n if n == "GAMMA" else n + "_P" for n in sp.split("-")) for sp in path.split("|"))
                    T.ok(p3 == path + "|" + want, f"{conv}: path is extended with the inverted points", p3)
                    T.ok(set(q3) == set(ref) | {n + "_P" for n in ref if n != "GAMMA"}, f"{conv}: points are extended with the inverted points", sorted(q3))
                    for n in ref:
                        T.close(q3[n], ref[n], f"{conv}: points are kept", 1e-9, s)
                        if n != "GAMMA":
                            T.close(q3[n + "_P"], -np.array(ref[n]), f"{conv}: inverted point is at minus the coordinate", 1e-9, s)
                    paths_ok(T, p3, q3, conv)
            T.ok(xtal.same(atoms, a0) and xtal.same(cell, c0), "input is not modified")
            if choice is not None:
                cell2, atoms2 = choice
                try:
                    path4, pts4 = f(cell2, atoms2, convention=conv, relative=False)
                except (ValueError, RuntimeError):
                    raise_skip()
                if wulfric.get_spglib_data(cell2, atoms2).space_group_number != data.space_group_number:
                    raise_skip()
                T.ok(path4 == path and list(pts4) == list(pts), f"{conv}: the path does not depend on the choice of the cell", (path, path4))
                names = list(pts)
                g = gram(pts, names)
                T.close(gram(pts4, names), g, f"{conv}: the points do not depend on the choice of the cell", 2e-3, np.abs(g).max())
                # they are related by a symmetry of the reciprocal lattice
                A, B = np.array([pts[n] for n in names]), np.array([pts4[n] for n in names])
                if np.linalg.matrix_rank(A, tol=1e-3 * s) == 3:
                    R = np.linalg.lstsq(A, B, rcond=None)[0]
                    prim = wulfric.crystal.get_primitive(cell, atoms, convention="spglib", spglib_data=data)[0]
                    rp = 2 * np.pi * np.linalg.inv(prim).T
                    m = rp @ R @ np.linalg.inv(rp)
                    T.ok(np.abs(m - np.round(m)).max() < 2e-2, f"{conv}: the points of both choices are related by a symmetry of the lattice", m)
            T.ok("GAMMA" in pts and np.abs(pts["GAMMA"]).max() < 1e-12, f"{conv}: GAMMA is at the origin")


def raise_skip():
    from rt.base import Skip

    raise Skip()


def rechoose(cell, atoms, rng):
    m = gen.unimodular(rng, 2)
    pos = atoms["positions"] @ np.linalg.inv(m)
    pos = (pos + rng.uniform(0, 1, size=3)) % 1.0
    p = rng.permutation(len(pos))
    out = {k: [atoms[k][i] for i in p] for k in atoms if k != "positions"}
    out["positions"] = pos[p]
    return m @ cell, out


INV = set()


def run(T):
    import json, os

    ref = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "space_groups.json")))
    INV.update(int(k) for k, v in ref.items() if v["inversion"])
    rng = T.rng
    with T.case(name="labels"):
        from spec import hs_points

        for conv in hs_points.SYMBOLS:
            for s in hs_points.SYMBOLS[conv]:
                for n in hs_points.parameters(conv, s)[1]:
                    T.ok(isinstance(HS_PLOT_NAMES.get(n), str), "every high-symmetry point has a plot label", n)
                    if n != "GAMMA":
                        T.ok(isinstance(HS_PLOT_NAMES.get(n + "_P"), str), "every inverted high-symmetry point has a plot label", n)
    for cell, atoms, data, info in xtal.stream(T, 2, 35, variants=(0, 1)):
        ch = rechoose(cell, atoms, rng) if "supercell" not in info and rng.random() < 0.7 else None
        check(T, cell, atoms, data, info, rng, ch)
    for i in T.loop(300, seconds=12, name="one-atom crystals with chosen parameters"):
        r = lattices.crystal(rng, choose=bool(i % 2))
        if r is None:
            continue
        cell, atoms, info = r
        try:
            data = wulfric.get_spglib_data(cell, atoms)
        except RuntimeError:
            continue
        check(T, cell, atoms, data, info, rng, None)
