import itertools
import math

import numpy as np
import wulfric

from rt import gen, lattices, xtal
from rt.c07 import params, reduced_upto_signs
from spec import hs_points
from wulfric.crystal import get_conventional, get_primitive, hpkot_get_extended_bl_symbol, sc_get_variation

G = np.array(list(itertools.product(range(-4, 5), repeat=3)))
G3 = G[np.abs(G).max(axis=1) <= 3]


def check(T, cell, atoms, data, info, seen):
    for conv in ("HPKOT", "SC"):
        with T.case(**xtal.given(cell, atoms, info, convention=conv)):
            try:
                sym = hpkot_get_extended_bl_symbol(cell, atoms, spglib_data=data) if conv == "HPKOT" else sc_get_variation(cell, atoms, spglib_data=data)
            except ValueError as e:
                continue  # boundary left undefined by the convention (C09)
            path, pts = wulfric.kpoints.get_path_and_points(cell, atoms, spglib_data=data, convention=conv, relative=False)
            cc, _ = get_conventional(cell, atoms, convention=conv, spglib_data=data)
            pc, _ = get_primitive(cell, atoms, convention=conv, spglib_data=data)
            a, b, c, al, be, ga = params(cc)
            want = hs_points.points(conv, sym, a, b, c, math.radians(al), math.radians(be))
            seen[sym] = seen.get(sym, 0) + 1
            T.ok(set(pts) == set(want), f"{conv}: names of the points of the symbol", lambda: (sym, sorted(set(pts) ^ set(want))))
            rp = 2 * np.pi * np.linalg.inv(pc).T
            for n, p in pts.items():
                T.close(p @ np.linalg.inv(rp), want[n], f"{conv}: coordinates are the published ones", 1e-6)
            T.ok(np.abs(pts["GAMMA"]).max() < 1e-12, "GAMMA is at the origin")
            # Brillouin zone of the lattice of the crystal (independent of the convention)
            r0 = 2 * np.pi * np.linalg.inv(data.primitive_cell).T
            s = np.linalg.norm(r0, axis=1).max()
            red = reduce(r0)
            L = G3 @ red
            names = [n for n in dict.fromkeys(x for sp in path.split("|") for x in sp.split("-")) if n != "GAMMA"]
            if sym.startswith("TRI"):
                # the SC setting does not reduce the reciprocal cell: the published point N is on the
                # boundary only if it is reduced and |b1*.b2*| is the smallest product
                R = 2 * np.pi * np.linalg.inv(cc).T
                g = R @ R.T
                pr = np.abs([g[1, 2], g[0, 2], g[0, 1]])
                if pr[2] > pr.min() + 1e-6 * s * s or not reduced_upto_signs(g, 1e-6 * s * s):
                    names = []
            for n in names:
                p = np.array(pts[n])
                d = np.linalg.norm(L - p, axis=1)
                T.ok(np.linalg.norm(p) <= d.min() + 2e-4 * s and (d <= d.min() + 4e-4 * s).sum() >= 2, f"{conv}: point of the path lies on the boundary of the Brillouin zone", lambda: f"{sym} {n} {p.tolist()}")
            # pairwise distinct
            q = np.array(list(pts.values()))
            dd = np.linalg.norm(q[:, None] - q[None], axis=2) + 10 * s * np.eye(len(q))
            if dd.min() < 1e-6 * s:
                i, j = np.unravel_index(dd.argmin(), dd.shape)
                nm = list(pts)
                w = np.abs(np.array(want[nm[i]]) - np.array(want[nm[j]])).max()
                T.ok(w < 1e-5 and boundary(conv, sym, a, b, c, al, be), f"{conv}: points are pairwise distinct", lambda: f"{sym} {nm[i]} {nm[j]}")


def boundary(conv, sym, a, b, c, al, be):
    """published points that merge at these parameters do not merge next to them"""
    r = np.random.default_rng(5)
    n, merged = None, None
    for k in range(5):
        f = 1 + (0.03 * r.uniform(-1, 1, size=5) if k else np.zeros(5))
        w = hs_points.points(conv, sym, a * f[0], b * f[1], c * f[2], math.radians(al * f[3]), math.radians(be * f[4]))
        n = list(w)
        m = {(x, y) for x in n for y in n if x < y and np.abs(np.array(w[x]) - w[y]).max() < (1e-9 if k else 1e-5)}
        merged = m if merged is None else merged & m
    return not merged


def reduce(m):
    """short lattice vectors (Minkowski-like), numpy only"""
    m = np.array(m, float)
    for _ in range(60):
        changed = False
        for i in range(3):
            o = [k for k in range(3) if k != i]
            best, vec = np.linalg.norm(m[i]) * (1 - 1e-9), None
            for x in (-2, -1, 0, 1, 2):
                for y in (-2, -1, 0, 1, 2):
                    v = m[i] + x * m[o[0]] + y * m[o[1]]
                    if np.linalg.norm(v) < best:
                        best, vec = np.linalg.norm(v), v
            if vec is not None:
                m[i] = vec
                changed = True
        if not changed:
            break
    return m


def run(T):
    seen = {}
    for i in T.loop(700, seconds=25, name="one-atom crystals with chosen parameters"):
        r = lattices.crystal(T.rng, rotate=bool(i % 3), choose=bool(i % 2))
        if r is None:
            continue
        cell, atoms, info = r
        try:
            data = wulfric.get_spglib_data(cell, atoms)
        except RuntimeError:
            continue
        check(T, cell, atoms, data, info, seen)
    for cell, atoms, data, info in xtal.stream(T, 2, 30, variants=(0, 1, 3)):
        check(T, cell, atoms, data, info, seen)
    T.notes = seen
