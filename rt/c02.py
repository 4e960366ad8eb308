from fractions import Fraction

import numpy as np

from rt import gen
from wulfric.cell import from_params, get_params, get_scalar_products
from wulfric.geometry import get_volume


def random_params(rng):
    """valid parameters, from a random cell (so that every valid set of angles is reachable)"""
    k = rng.integers(4)
    while True:
        if k == 0:
            m = rng.normal(size=(3, 3))
        elif k == 1:
            m = np.eye(3) + 0.3 * rng.normal(size=(3, 3))
        elif k == 2:  # special angles
            al, be, ga = rng.choice([30, 45, 60, 75, 89.5, 90, 90, 90.5, 100, 120, 135, 150], size=3).astype(float)
            if al < be + ga - 1 and be < al + ga - 1 and ga < al + be - 1 and al + be + ga < 359:
                return list(rng.uniform(0.1, 9, size=3)) + [al, be, ga]
            continue
        else:  # nearly flat
            m = rng.normal(size=(3, 3))
            m[2] = rng.normal() * m[0] + rng.normal() * m[1] + 0.1 * rng.normal(size=3)
        m = m * (10.0 ** rng.uniform(-2, 2))
        n = np.linalg.norm(m, axis=1)
        if abs(np.linalg.det(m)) < 0.02 * n.prod():
            continue
        return params(m)


def params(m):
    n = np.linalg.norm(m, axis=1)
    ang = lambda i, j: float(np.degrees(np.arccos(np.clip(m[i] @ m[j] / n[i] / n[j], -1, 1))))
    return [*map(float, n), ang(1, 2), ang(0, 2), ang(0, 1)]


def run(T):
    rng = T.rng
    for _ in T.loop(500, name="from_params"):
        p = random_params(rng)
        with T.case(params=p):
            cell = np.array(from_params(*p))
            q = params(cell)
            T.close(q[:3], p[:3], "lengths of the cell", 1e-9, max(p[:3]))
            T.close(q[3:], p[3:], "angles of the cell", 1e-5, 1)
            T.ok(cell[0, 0] > 0 and cell[0, 1] == 0 and cell[0, 2] == 0, "first vector along +x", cell)
            T.ok(cell[1, 1] > 0 and cell[1, 2] == 0, "second vector in the xy plane with positive y", cell)
            T.ok(np.linalg.det(cell) > 0, "right-handed", cell)
            back = get_params(cell)
            T.close(back[:3], p[:3], "get_params(from_params(...)): lengths", 1e-9, max(p[:3]))
            T.close(back[3:], p[3:], "get_params(from_params(...)): angles", 1e-5, 1)
            v = abs(np.linalg.det(cell))
            T.close(get_volume(*p), v, "volume from parameters", 1e-8, np.prod(p[:3]))
            T.close(get_volume(cell), v, "volume from the cell", 1e-9, np.prod(p[:3]))
            kw = dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), p))
            T.close(from_params(**kw), cell, "keyword arguments", 1e-12)
    with T.case(params="defaults"):
        T.close(from_params(), np.eye(3), "default parameters", 1e-12)
        T.close(from_params(2, 3, 4), np.diag([2.0, 3, 4]), "default angles", 1e-12)
    for _ in T.loop(500, name="cell"):
        m = rng.normal(size=(3, 3)) * 10.0 ** rng.uniform(-2, 2)
        n = np.linalg.norm(m, axis=1)
        if abs(np.linalg.det(m)) < 0.01 * n.prod():
            continue
        if rng.random() < 0.3:
            m = rng.integers(-3, 4, size=(3, 3)).astype(float)
            if abs(np.linalg.det(m)) < 0.5:
                continue
            n = np.linalg.norm(m, axis=1)
        with T.case(cell=m):
            given = m.copy()
            p = get_params(m)
            T.close(p[:3], n, "lengths", 1e-10, n.max())
            T.close(p[3:], params(m)[3:], "angles (2,3), (1,3), (1,2)", 1e-6, 1)
            T.close(get_params(m.tolist()), p, "list input", 1e-12)
            c2 = from_params(*p)
            T.close(c2 @ c2.T, m @ m.T, "metric of the rebuilt cell", 1e-7, (n.max()) ** 2)
            v = abs(np.linalg.det(m))
            s = n.prod()
            T.close(get_volume(m), v, "|det|", 1e-10, s)
            T.close(get_volume(m.tolist()), v, "|det| of a list", 1e-10, s)
            perm = list(rng.permutation(3))
            T.close(get_volume(*m[perm]), v, "order of the vectors", 1e-10, s)
            T.close(get_volume(m[perm]), v, "order of the vectors", 1e-10, s)
            sg = rng.choice([-1, 1], size=3)
            T.close(get_volume(m * sg[:, None]), v, "handedness", 1e-10, s)
            T.close(get_volume(*p), v, "volume from the parameters of the cell", 1e-6, s)
            T.close(get_volume(*[list(r) for r in m]), v, "three lists", 1e-10, s)
            sp = get_scalar_products(m)
            T.close(sp, [m[1] @ m[2], m[0] @ m[2], m[0] @ m[1]], "scalar products (2,3), (1,3), (1,2)", 1e-10, n.max() ** 2)
            T.close(get_scalar_products(m.tolist()), sp, "scalar products of a list", 1e-12, n.max() ** 2)
            T.ok(np.array_equal(m, given), "input is not modified")
