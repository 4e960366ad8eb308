import numpy as np

from wulfric.cell import get_reciprocal, get_transformation_matrix


def cell(rng):
    while True:
        k = rng.integers(3)
        m = rng.normal(size=(3, 3)) if k else rng.integers(-4, 5, size=(3, 3)).astype(float)
        if k == 2:
            m = np.diag(rng.uniform(0.5, 3, size=3))
        m = m * 10.0 ** rng.uniform(-2, 2) if k == 1 else m
        n = np.linalg.norm(m, axis=1)
        if n.min() > 0 and abs(np.linalg.det(m)) > 0.02 * n.prod():
            return m


def run(T):
    rng = T.rng
    for _ in T.loop(800, name="reciprocal"):
        m = cell(rng)
        with T.case(cell=m):
            g = m.copy()
            r = get_reciprocal(m)
            T.ok(isinstance(r, np.ndarray) and r.shape == (3, 3), "array")
            T.close(m @ r.T, 2 * np.pi * np.eye(3), "a_i.b_j = 2 pi delta_ij", 1e-9)
            T.close(get_reciprocal(m.tolist()), r, "list input", 1e-12)
            T.close(get_reciprocal(r), m, "reciprocal of the reciprocal", 1e-9)
            T.ok(np.array_equal(m, g), "input is not modified")
    for _ in T.loop(800, name="transformation"):
        a = cell(rng)
        b = cell(rng) if rng.random() < 0.5 else rng.integers(-2, 3, size=(3, 3)) @ a
        with T.case(original=a, transformed=b):
            for x, y in ((a, b), (a.tolist(), b.tolist()), (a, b.tolist()), (tuple(map(tuple, a)), b)):
                p = np.array(get_transformation_matrix(x, y))
                T.close(p.T @ a, b, "transformed = P^T @ original", 1e-9)
                T.close(np.linalg.det(p) * np.linalg.det(a), np.linalg.det(b), "determinant is the ratio of volumes", 1e-8, max(1, np.abs(b).max() ** 3))
            T.close(get_transformation_matrix(a, a), np.eye(3), "identity", 1e-9)
