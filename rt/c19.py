import itertools

import numpy as np
from wulfric.cell import get_brillouin_zone, get_lattice_points, get_reciprocal, get_wigner_seitz_cell

from rt import gen, lattices

G = np.array(list(itertools.product(range(-4, 5), repeat=3)))
NZ = G[np.abs(G).max(axis=1) > 0]


def points(T):
    rng = T.rng
    for i in T.loop(600, seconds=8, name="lattice points"):
        cell = np.round(rng.normal(size=(3, 3)) * 3, 3)
        r = tuple(int(x) for x in rng.integers(0, 5, size=3))
        with T.case(cell=cell, range=r):
            want = np.array([[a, b, c] for a in range(-r[0], r[0] + 1) for b in range(-r[1], r[1] + 1) for c in range(-r[2], r[2] + 1)])
            n = tuple(2 * x + 1 for x in r)
            arg = cell if i % 2 else cell.tolist()
            rel = get_lattice_points(arg, range=r, relative=True)
            T.ok(np.shape(rel) == want.shape and np.array_equal(rel, want), "exactly the integer combinations in row-major order", lambda: np.array(rel).tolist()[:9])
            T.close(get_lattice_points(arg, range=r), want @ cell, "i*a1 + j*a2 + k*a3", 1e-12)
            T.close(get_lattice_points(arg, range=r, relative=False, flat=False), (want @ cell).reshape(*n, 3), "grid", 1e-12)
            g = get_lattice_points(arg, range=r, relative=True, flat=False)
            T.ok(np.shape(g) == (*n, 3) and np.array_equal(g, want.reshape(*n, 3)), "relative grid")
            if i % 5 == 0:
                T.close(get_lattice_points(arg), np.array(list(itertools.product((-1, 0, 1), repeat=3))) @ cell, "default range", 1e-12)


def hull_volume(v):
    from scipy.spatial import ConvexHull

    return ConvexHull(v).volume


def ws(T, cell, v, e, name, reduced=None):
    """reduced: a reduced basis of the same lattice, if the cell is skewed"""
    cell = cell if reduced is None else reduced
    s = np.linalg.norm(cell, axis=1).max()
    v, e = np.array(v, float), np.array(e)
    T.ok(v.ndim == 2 and v.shape[1] == 3 and e.ndim == 2 and e.shape[1] == 2, f"{name}: shapes", (v.shape, e.shape))
    T.ok(e.min() >= 0 and e.max() < len(v) and (e[:, 0] != e[:, 1]).all(), f"{name}: edges join existing vertices")
    ee = {tuple(sorted(x)) for x in e.tolist()}
    T.ok(len(ee) == len(e), f"{name}: every edge once")
    L = NZ @ cell
    n0 = np.linalg.norm(v, axis=1)
    d = np.linalg.norm(v[:, None] - L[None], axis=2)
    T.ok((n0[:, None] <= d + 1e-7 * s).all(), f"{name}: the origin is among the nearest lattice points of each vertex")
    T.ok(((np.abs(d - n0[:, None]) < 1e-6 * s).sum(axis=1) >= 3).all(), f"{name}: vertices are equidistant from at least four lattice points")
    mid = (v[e[:, 0]] + v[e[:, 1]]) / 2
    dm = np.linalg.norm(mid[:, None] - L[None], axis=2)
    T.ok(((np.abs(dm - np.linalg.norm(mid, axis=1)[:, None]) < 1e-6 * s).sum(axis=1) >= 2).all(), f"{name}: edges lie on the edges of the body")
    dd = np.linalg.norm(v[:, None] + v[None], axis=2).min(axis=1)
    T.ok(dd.max() < 1e-6 * s, f"{name}: inversion symmetric", dd.max())
    T.close(hull_volume(v), abs(np.linalg.det(cell)), f"{name}: encloses the volume of the cell", 1e-6, abs(np.linalg.det(cell)))
    # faces: relevant vectors, halves of which have exactly two nearest lattice points
    h = L / 2
    dh = np.linalg.norm(h[:, None] - np.vstack([L, np.zeros((1, 3))])[None], axis=2)
    F = int(((dh < np.linalg.norm(h, axis=1)[:, None] - 1e-9 * s).sum(axis=1) == 0).sum()) if False else None
    hn = np.linalg.norm(h, axis=1)
    inside = (dh < hn[:, None] + 1e-7 * s).sum(axis=1)
    strictly = (dh < hn[:, None] - 1e-7 * s).sum(axis=1)
    F = int(((inside == 2) & (strictly == 0)).sum())
    T.ok(len(v) - len(e) + F == 2, f"{name}: Euler's relation", (len(v), len(e), F))
    deg = np.bincount(e.ravel(), minlength=len(v))
    T.ok(deg.min() >= 3, f"{name}: at least three edges meet at each vertex", deg)


def nondegenerate(cell):
    """no lattice vectors that are nearly (but not exactly) critical"""
    L = NZ @ cell
    s = np.linalg.norm(cell, axis=1).max()
    h = L / 2
    hn = np.linalg.norm(h, axis=1)
    dh = np.linalg.norm(h[:, None] - np.vstack([L, np.zeros((1, 3))])[None], axis=2)
    x = (dh - hn[:, None]) / s
    x = np.abs(x[x.min(axis=1) > -1e-3])  # other halves are clearly outside
    return not ((x > 1e-9) & (x < 1e-3)).any()


def cells(T):
    rng = T.rng
    for i in T.loop(26, seconds=38, name="Wigner-Seitz cells"):
        k = i % 3
        if k == 0:
            r = lattices.crystal(rng, choose=False, rotate=bool(i % 2))
            if r is None:
                continue
            cell = r[0]
        elif k == 1:
            cell = rng.normal(size=(3, 3)) + np.diag(rng.uniform(1.5, 3, size=3))
        else:
            cell = np.diag(np.round(rng.uniform(1, 3, size=3), 2)) + np.round(rng.uniform(-0.4, 0.4, size=(3, 3)), 2)
        n = np.linalg.norm(cell, axis=1)
        from rt.c23 import reduce

        red = reduce(cell)
        if n.max() > 3 * n.min() or abs(np.linalg.det(cell)) < 0.3 * n.prod() or not nondegenerate(red):
            continue
        if abs(np.linalg.det(red)) < 0.2 * np.linalg.norm(red, axis=1).prod():
            continue
        with T.case(cell=cell):
            c0 = cell.copy()
            v, e = get_wigner_seitz_cell(cell if i % 2 else cell.tolist())
            ws(T, cell, v, e, "Wigner-Seitz cell") if np.abs(np.round(cell @ np.linalg.inv(red))).max() <= 3 else None
            T.ok(np.array_equal(cell, c0), "input is not modified")
            if i % 4 == 0:
                rc = get_reciprocal(cell)
                if nondegenerate(reduce(rc)):
                    v2, e2 = get_brillouin_zone(cell)
                    v3, e3 = get_wigner_seitz_cell(rc)
                    T.ok(len(v2) == len(v3) and len(e2) == len(e3), "Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice (size)")
                    T.close(sorted(map(tuple, np.round(v2, 6))), sorted(map(tuple, np.round(v3, 6))), "Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice", 1e-4)
                    ws(T, 2 * np.pi * np.linalg.inv(cell).T, v2, e2, "Brillouin zone")


SIGNED = np.array(list(itertools.product((-1, 0, 1), repeat=3)))


def skewed(T):
    """other bases of lattices with a known reduced one: some neighbours of the origin have large coefficients"""
    rng = T.rng
    for i in T.loop(14, seconds=20, name="skewed cells"):
        red = np.diag(rng.uniform(1, 2, size=3)) + rng.uniform(-0.3, 0.3, size=(3, 3))
        if not nondegenerate(red):
            continue
        S = np.eye(3, dtype=int)
        for _ in range(1 + i % 3):
            a, b = rng.permutation(3)[:2]
            S[a] += int(rng.integers(1, 6)) * rng.choice([-1, 1]) * S[b]
        size = np.abs(SIGNED @ np.round(np.linalg.inv(S))).max()
        if not 2 <= size <= 7 or np.abs(S).max() > 12:
            continue
        cell = S @ red
        with T.case(cell=cell, reduced=red):
            v, e = get_wigner_seitz_cell(cell)
            ws(T, cell, v, e, f"Wigner-Seitz cell of a skewed cell", red)
            if i % 3 == 0:
                rc = get_reciprocal(cell)
                T.close(np.linalg.det(np.linalg.inv(S).T @ get_reciprocal(red)), np.linalg.det(rc), "reciprocal lattice", 1e-6)
                if nondegenerate(get_reciprocal(red)) and np.abs(SIGNED @ S.T).max() <= 7:
                    v, e = get_brillouin_zone(cell)
                    ws(T, rc, v, e, "Brillouin zone of a skewed cell", get_reciprocal(red))


def run(T):
    points(T)
    skewed(T)
    cells(T)
