"""Generators of crystals for every space group, and geometric oracles.

Independent of wulfric: only numpy and the symmetry database of spglib are used.
"""
import functools

import numpy as np
import spglib


@functools.lru_cache(maxsize=None)
def hall_by_sg():
    out = {}
    for h in range(1, 531):
        t = spglib.get_spacegroup_type(h)
        out.setdefault(t.number, []).append(h)
    return out


@functools.lru_cache(maxsize=None)
def ops(hall):
    d = spglib.get_symmetry_from_database(hall)
    return np.array(d["rotations"]), np.array(d["translations"])


def symmetrize(rots, g0):
    g = np.zeros((3, 3))
    for r in rots:
        g += r.T @ g0 @ r
    return g / len(rots)


def symmetric_metric(rots, rng, spread=0.35):
    m = np.eye(3) + spread * rng.normal(size=(3, 3))
    return symmetrize(rots, m @ m.T)


SPECIAL_METRICS = [
    np.diag([1.0, 1.0, 1.0]),
    np.diag([1.0, 1.0, 2.0]),
    np.diag([1.0, 2.0, 1.0]),
    np.diag([2.0, 1.0, 1.0]),
    np.diag([1.0, 1.5, 2.0]),
    np.array([[1.0, 0.5, 0.5], [0.5, 1.0, 0.5], [0.5, 0.5, 1.0]]),
    np.array([[1.0, -0.5, 0], [-0.5, 1.0, 0], [0, 0, 1.7]]),
    np.array([[1.0, 0, -0.3], [0, 1.0, 0], [-0.3, 0, 1.0]]),
    np.array([[1.0, 0.3, 0], [0.3, 1.0, 0], [0, 0, 2.0]]),
    np.diag([1.0, 3.0, 9.0]),
    np.diag([9.0, 3.0, 1.0]),
    np.array([[1.0, 0.2, 0.1], [0.2, 1.3, -0.15], [0.1, -0.15, 1.6]]),
]


def accidental_metric(rots, rng):
    """Lattice with (possibly) higher symmetry than the space group asks for."""
    return symmetrize(rots, SPECIAL_METRICS[int(rng.integers(len(SPECIAL_METRICS)))])


def cell_from_metric(g, scale=4.0):
    # rows are vectors: cell @ cell.T = g
    return scale * np.linalg.cholesky(g)


def orbit(rots, trans, x, tol=1e-5):
    pts = []
    for r, t in zip(rots, trans):
        p = (r @ x + t) % 1.0
        for q in pts:
            d = p - q
            d -= np.round(d)
            if np.abs(d).max() < tol:
                break
        else:
            pts.append(p)
    return np.array(pts)


def rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def unimodular(rng, steps=3):
    m = np.eye(3, dtype=int)
    for _ in range(steps):
        i, j = rng.choice(3, 2, replace=False)
        e = np.eye(3, dtype=int)
        e[i, j] = rng.integers(-1, 2)
        m = e @ m
    p = rng.permutation(3)
    m = m[p]
    if np.linalg.det(m) < 0:
        m = -m
    return m


SPECIES = ["Cr", "Br", "S", "Fe", "O", "Ni"]


def crystal(sg, rng, hall=None, rotate=True, transform=True, metric=None, special=False, primitive_input=False):
    """Crystal of the space group ``sg``: (cell, atoms, hall)."""
    if hall is None:
        hall = int(rng.choice(hall_by_sg()[sg]))
    rots, trans = ops(hall)
    for _ in range(50):
        g = symmetric_metric(rots, rng) if metric is None else metric(rots, rng)
        if np.linalg.det(g) < 0.05:
            continue
        cell = cell_from_metric(g)
        pos = [orbit(rots, trans, rng.uniform(0, 1, size=3))]
        spec = ["Cr"] * len(pos[0])
        sites = []
        if special:
            sites = [np.zeros(3), np.array([0.5, 0.5, 0.5])]
        elif len(pos[0]) <= 48:
            sites = [rng.uniform(0, 1, size=3)]
        if len(pos[0]) <= 4:
            sites.append(rng.uniform(0, 1, size=3))
        for sp, y in enumerate(sites):
            o = orbit(rots, trans, y)
            d = np.concatenate(pos)[:, None] - o[None]
            if np.abs(d - np.round(d)).max(axis=2).min() < 1e-3:
                continue
            pos.append(o)
            spec += [SPECIES[sp + 1]] * len(o)
        pos = np.concatenate(pos)
        # minimal distance
        d = pos[:, None] - pos[None]
        d -= np.round(d)
        dist = np.linalg.norm(d @ cell, axis=2) + 10 * np.eye(len(pos))
        if dist.min() < 0.05:
            continue
        break
    else:
        return None
    if transform:
        m = unimodular(rng)
        new = m @ cell
        pos = pos @ np.linalg.inv(m)
        cell = new
        pos = (pos + rng.uniform(0, 1, size=3)) % 1.0
    if rotate:
        cell = cell @ rotation(rng)
    p = rng.permutation(len(pos))
    pos = pos[p]
    spec = [spec[i] for i in p]
    return cell, dict(positions=pos, species=spec), hall


def _match(points, types, cell_b, pos_b, types_b, tol):
    """True if every Cartesian point coincides with an atom of crystal b of the same type."""
    inv = np.linalg.inv(cell_b)
    f = points @ inv
    d = f[:, None, :] - pos_b[None, :, :]
    d -= np.round(d)
    dist = np.linalg.norm(d @ cell_b, axis=2)
    same = (np.asarray(types)[:, None] == np.asarray(types_b)[None, :]) & (dist < tol)
    return bool(same.any(axis=1).all())


def same_crystal(cell_a, pos_a, types_a, cell_b, pos_b, types_b, tol=2e-4, translation=True):
    """Reason (str) if two periodic structures differ, None if they are the same (up to a translation)."""
    cell_a, cell_b = np.array(cell_a, float), np.array(cell_b, float)
    pos_a, pos_b = np.array(pos_a, float), np.array(pos_b, float)
    types_a, types_b = list(types_a), list(types_b)
    va, vb = abs(np.linalg.det(cell_a)), abs(np.linalg.det(cell_b))
    if va < 1e-9 or vb < 1e-9:
        return "degenerate cell"
    if len(pos_a) != len(types_a) or len(pos_b) != len(types_b):
        return "lengths"
    if set(types_a) != set(types_b):
        return f"types differ: {set(types_a)} vs {set(types_b)}"
    for t in set(types_a):
        if abs(types_a.count(t) / va - types_b.count(t) / vb) > 1e-3 * types_a.count(t) / va:
            return f"density of type {t} differs"
    for i in range(3):
        if not _match(pos_b @ cell_b + cell_a[i], types_b, cell_b, pos_b, types_b, tol):
            return f"vector {i} of the first cell is not a translation of the second crystal"
        if not _match(pos_a @ cell_a + cell_b[i], types_a, cell_a, pos_a, types_a, tol):
            return f"vector {i} of the second cell is not a translation of the first crystal"
    rare = min(set(types_a), key=types_a.count)
    ia = types_a.index(rare)
    ca = pos_a @ cell_a
    cb = pos_b @ cell_b
    shifts = (
        [cb[j] - ca[ia] for j in range(len(cb)) if types_b[j] == rare] if translation else [np.zeros(3)]
    )
    for s in shifts:
        if _match(ca + s, types_a, cell_b, pos_b, types_b, tol):
            return None
    return "atoms do not coincide"


def integer_matrix(m, tol=1e-4):
    return np.abs(m - np.round(m)).max() < tol
