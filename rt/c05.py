import numpy as np

from rt import gen
from wulfric.cell import get_niggli
import wulfric

NF = wulfric.exceptions.NiggliReductionFailed if hasattr(wulfric, "exceptions") else __import__("wulfric._exceptions", fromlist=["x"]).NiggliReductionFailed


def conditions(T, n, tol, name):
    g = n @ n.T
    A, B, C = g[0, 0], g[1, 1], g[2, 2]
    xi, eta, zeta = 2 * g[1, 2], 2 * g[0, 2], 2 * g[0, 1]
    T.ok(A <= B + tol and B <= C + tol, f"{name}: a <= b <= c", (A, B, C))
    T.ok(abs(xi) <= B + tol, f"{name}: |2 b.c| <= b.b", (xi, B))
    T.ok(abs(eta) <= A + tol, f"{name}: |2 a.c| <= a.a", (eta, A))
    T.ok(abs(zeta) <= A + tol, f"{name}: |2 a.b| <= a.a", (zeta, A))
    pos = min(xi, eta, zeta) > -tol
    neg = max(xi, eta, zeta) < tol
    T.ok(pos or neg, f"{name}: all products positive or all non-positive", (xi, eta, zeta))
    if not min(xi, eta, zeta) > tol / 3 * 0.9:  # tol = 3 eps; products between 0.9 eps and eps may count as zero or as positive
        T.ok(neg, f"{name}: all products positive or all non-positive", (xi, eta, zeta))
        T.ok(A + B + xi + eta + zeta >= -tol, f"{name}: diagonal condition", (A, B, xi, eta, zeta))


def metric(n):
    g = n @ n.T
    return np.array([g[0, 0], g[1, 1], g[2, 2], g[1, 2], g[0, 2], g[0, 1]])


def lattice(rng):
    k = rng.integers(7)
    if k == 0:
        m = rng.normal(size=(3, 3)) * 3
    elif k == 1:
        m = rng.integers(-4, 5, size=(3, 3)).astype(float)
    elif k in (2, 3):
        hall = int(rng.integers(1, 531))
        rots, _ = gen.ops(hall)
        g = gen.accidental_metric(rots, rng) if k == 2 else gen.symmetric_metric(rots, rng)
        if np.linalg.det(g) < 0.05:
            return None
        m = gen.cell_from_metric(g)
        c = rng.integers(5)
        P = [np.eye(3), [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]], [[2, 1, 1], [-1, 1, 1], [-1, -2, 1]]][c]
        m = np.array(P) / (1 if c == 0 else 3 if c == 4 else 2) @ m
    elif k == 4:  # quadratic forms with small integers: all kinds of boundary cases
        A, B, C = rng.integers(1, 7, size=3) * 2
        x, y, z = rng.integers(-6, 7, size=3)
        g = np.array([[A, z, y], [z, B, x], [y, x, C]], float)
        if np.linalg.eigvalsh(g)[0] < 0.2:
            return None
        m = gen.cell_from_metric(g, 1.0)
    elif k == 5:
        m = np.diag(rng.uniform(0.5, 5, size=3))
    else:  # long and skewed
        m = rng.normal(size=(3, 3)) + np.outer(rng.integers(-4, 5, size=3), rng.normal(size=3) * 2)
    for _ in range(int(rng.integers(0, 4))):
        m = gen.unimodular(rng, 2) @ m
    m = m @ gen.rotation(rng)
    n = np.linalg.norm(m, axis=1)
    v = abs(np.linalg.det(m))
    if v < 0.3 or v < 1e-3 * n.prod():
        return None
    if rng.random() < 0.5:
        m = m * np.array([[1.0], [1.0], [-1.0]])
    return m


def run(T):
    rng = T.rng
    for it in T.loop(3000, seconds=25, name="random and special lattices"):
        m = lattice(rng)
        if m is None:
            continue
        with T.case(cell=m):
            given = m.copy()
            v = abs(np.linalg.det(m))
            red = {}
            for impl in ("wulfric", "spglib"):
                n = get_niggli(m, implementation=impl)
                T.ok(isinstance(n, np.ndarray) and n.shape == (3, 3), f"{impl}: array")
                t = n @ np.linalg.inv(m)
                T.close(t, np.round(t), f"{impl}: integer combinations of the given vectors", 1e-6)
                T.ok(abs(abs(np.linalg.det(np.round(t))) - 1) < 1e-9, f"{impl}: determinant +-1", t)
                T.close(abs(np.linalg.det(n)), v, f"{impl}: same volume", 1e-8, v)
                tol = 1e-5 * v ** (1 / 3) * 3 + 1e-9
                conditions(T, n, tol, impl)
                red[impl] = metric(n)
            s = np.abs(red["spglib"]).max()
            a, b = red["wulfric"], red["spglib"]
            T.ok(np.abs(a - b).max() < 1e-3 * s, "the two implementations agree on the reduced metric", lambda: f"{a.tolist()} {b.tolist()}")
            T.ok(np.array_equal(m, given), "input is not modified")
            if it % 5 == 0:
                T.close(get_niggli(m.tolist(), implementation="WULFRIC" if it % 2 else "wulfric"), get_niggli(m, implementation="wulfric"), "list input", 1e-12)
                n = get_niggli(get_niggli(m, implementation="wulfric"), implementation="wulfric")
                T.ok(np.abs(metric(n) - a).max() < 1e-3 * s, "reduction of the reduced cell")
                T.close(metric(get_niggli(m)), b, "default implementation", 1e-9, s)
            if it % 7 == 0:
                for k in (0, 1, 2, 3, 5, 8):
                    try:
                        n = get_niggli(m, implementation="wulfric", max_iterations=k)
                    except NF:
                        T.ok(True, "raises NiggliReductionFailed or returns a reduced cell")
                        continue
                    T.ok(np.abs(metric(n) - a).max() < 1e-3 * s, "raises NiggliReductionFailed or returns a reduced cell", k)
            if it % 7 == 1:
                for e in (1e-3, 1e-4, 1e-7):
                    n = get_niggli(m, eps_relative=e, implementation="wulfric")
                    t = n @ np.linalg.inv(m)
                    T.close(t, np.round(t), "eps_relative: integer combinations", 1e-6)
                    conditions(T, n, e * v ** (1 / 3) * 3 + 1e-9, "eps_relative")
    with T.case(cell="degenerate"):
        T.raises(ValueError, lambda: get_niggli([[1, 0, 0], [0, 1, 0], [0, 0, 0]], implementation="wulfric"), "degenerate cell is refused")
        T.raises(ValueError, lambda: get_niggli(np.eye(3), implementation="other"), "unknown implementation is refused")
