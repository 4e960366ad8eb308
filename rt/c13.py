import copy

import numpy as np
import wulfric
from wulfric import Kpoints

from rt import lattices


class Model:
    def __init__(self, rcell, names, coords, labels, path, n):
        self.rcell, self.names, self.coords, self.labels, self.path, self.n = rcell, names, coords, labels, path, n

    def copy(self):
        return copy.deepcopy(self)


def expected(m, relative):
    cell = np.eye(3) if relative else m.rcell
    c = {k: np.array(v) @ cell for k, v in m.coords.items()}
    labels, ticks, pts, flat = [], [], [], []
    for si, sp in enumerate(m.path):
        if si == 0:
            labels.append(m.labels[sp[0]])
            ticks.append(0.0)
        else:
            labels[-1] += "|" + m.labels[sp[0]]
        for x, y in zip(sp, sp[1:]):
            labels.append(m.labels[y])
            d = np.linalg.norm(c[y] - c[x])
            for i in range(m.n + 2):
                t = i / (m.n + 1)
                pts.append(c[x] + t * (c[y] - c[x]))
                flat.append(ticks[-1] + t * d)
            ticks.append(ticks[-1] + d)
    return labels, np.array(ticks), np.array(pts).reshape(-1, 3), np.array(flat)


def check(T, k, m, full=True):
    T.ok(list(k.hs_names) == m.names, "names", lambda: f"{k.hs_names} instead of {m.names}")
    T.ok(sorted(k.hs_coordinates) == sorted(m.names) and sorted(k.hs_labels) == sorted(m.names), "names, coordinates and labels refer to the same points", lambda: f"{k.hs_names} {list(k.hs_coordinates)} {list(k.hs_labels)}")
    for n in m.names:
        T.close(k.hs_coordinates[n], m.coords[n], "coordinates", 1e-9)
        T.ok(k.hs_labels[n] == m.labels[n], "labels of points", (n, k.hs_labels[n]))
    T.ok(k.path == m.path, "path", lambda: f"{k.path} instead of {m.path}")
    T.ok(all(len(s) >= 2 and all(p in m.names for p in s) for s in k.path), "every point of the path is defined")
    T.ok(k.n == m.n, "n", k.n)
    T.close(k.rcell, m.rcell, "reciprocal cell", 1e-12)
    if not full:
        return
    if m.path:
        T.ok(k.path_string == "|".join("-".join(s) for s in m.path), "path as text", k.path_string)
    for relative in (True, False):
        kw = [dict(relative=relative)] if relative else [dict(relative=False), {}]
        kw = kw[-1] if T.rng.random() < 0.5 else kw[0]
        L, t, p, f = expected(m, relative)
        T.ok(list(k.labels) == L, "labels along the path", lambda: f"{k.labels} instead of {L}")
        kt = k.ticks(**kw)
        T.ok(len(k.labels) == len(kt), "labels and ticks have equal length", (len(k.labels), len(kt)))
        T.close(kt, t, "ticks", 1e-9)
        kp = k.points(**kw)
        T.close(kp, p, "points", 1e-9)
        kf = k.flat_points(**kw)
        T.ok(len(kp) == len(kf), "points and flat_points have equal length")
        T.close(kf, f, "flat_points", 1e-9)
        T.ok(len(kf) == 0 or bool((np.diff(kf) >= -1e-9).all()), "flat_points are non-decreasing")
        seg = sum(len(s) - 1 for s in m.path)
        T.ok(len(kp) == seg * (m.n + 2), "n + 2 entries per segment", (len(kp), seg, m.n))


def state(k):
    return copy.deepcopy((list(k.hs_names), {a: np.array(b).tolist() for a, b in k.hs_coordinates.items()}, dict(k.hs_labels), k.path, k.n, np.array(k.rcell).tolist()))


NAMES = ["GAMMA", "X", "Y", "Z", "M", "L1", "S0", "K_P", "Q", "A"]


def random_path(rng, names):
    return [[str(rng.choice(names)) for _ in range(int(rng.integers(2, 5)))] for _ in range(int(rng.integers(1, 4)))]


def create(T, rng):
    if rng.random() < 0.08:
        r = lattices.crystal(rng)
        if r is not None:
            cell, atoms, info = r
            try:
                conv = ["HPKOT", "SC"][int(rng.integers(2))]
                tr = bool(rng.random() < 0.5)
                n = int(rng.integers(0, 4))
                path, pts = wulfric.kpoints.get_path_and_points(cell, atoms, convention=conv, with_time_reversal=tr)
                k = Kpoints.from_crystal(cell, atoms, convention=conv, with_time_reversal=tr, n=n)
            except (ValueError, RuntimeError):
                return None
            names = list(pts)
            m = Model(2 * np.pi * np.linalg.inv(cell).T, names, {a: np.array(pts[a]) for a in names}, {a: wulfric.constants.HS_PLOT_NAMES[a] for a in names}, [s.split("-") for s in path.split("|")], n)
            return k, m
    rcell = np.round(rng.normal(size=(3, 3)) * 2 + np.eye(3), 3)
    N = int(rng.integers(0, 7))
    names = [str(x) for x in rng.permutation(NAMES)[:N]]
    coords = [np.round(rng.uniform(-1, 1, size=3), 3).tolist() for _ in range(N)]
    labels = [f"${x}$" for x in names]
    kind = int(rng.integers(6))
    kw, mn, ml, mp = {}, names, labels, None
    if kind == 0:
        mn, ml = [f"K{i + 1}" for i in range(N)], [f"K$_{i + 1}$" for i in range(N)]
    elif kind == 1:
        kw = dict(names=names)
        ml = names
    elif kind == 2:
        kw = dict(labels=labels)
        mn = [f"K{i + 1}" for i in range(N)]
    else:
        kw = dict(names=names, labels=labels)
    if N >= 1 and rng.random() < 0.6:
        mp = random_path(rng, mn)
        kw["path"] = mp if rng.random() < 0.5 else "|".join("-".join(s) for s in mp)
    else:
        mp = [list(mn)] if N >= 2 else []
    n = 100
    if rng.random() < 0.9:
        n = int(rng.integers(0, 6))
        kw["n"] = n
    if N:
        kw["coordinates"] = coords if rng.random() < 0.5 else np.array(coords)
    snap = copy.deepcopy(kw)
    k = Kpoints(rcell if rng.random() < 0.5 else rcell.tolist(), **kw)
    T.ok(all(np.array_equal(snap[x], kw[x]) if not isinstance(snap[x], (str, int)) else snap[x] == kw[x] for x in ("names", "labels", "n", "coordinates") if x in kw), "arguments are not modified")
    m = Model(rcell, list(mn), {a: np.array(b) for a, b in zip(mn, coords)}, dict(zip(mn, ml)), [list(s) for s in mp], n)
    # no memory is shared with the arguments
    for x in ("names", "labels"):
        if x in kw and kw[x]:
            kw[x][0] = "changed"
    if isinstance(kw.get("path"), list):
        for s in kw["path"]:
            s[0] = "changed"
    if N:
        c = kw["coordinates"]
        c[0][0] = 77.0
    return k, m


def step(T, k, m, rng, log):
    """one operation on both; returns the possibly new pair"""
    op = int(rng.integers(11))
    before = state(k)
    refused = None
    if op in (0, 1):
        name = str(rng.choice(NAMES + ["NEW", "B7"]))
        c = np.round(rng.uniform(-1, 1, size=3), 3)
        label = None if rng.random() < 0.4 else f"l_{name}"
        rel = bool(rng.random() < 0.6)
        log.append(("add", name, c.tolist(), label, rel))
        arg = c if rng.random() < 0.5 else c.tolist()
        kw = {}
        if label is not None:
            kw["label"] = label
        if not rel or rng.random() < 0.5:
            kw["relative"] = rel
        if name in m.names:
            refused = lambda: k.add_hs_point(name, arg, **kw)
        else:
            k.add_hs_point(name, arg, **kw)
            m.names.append(name)
            m.coords[name] = c.copy() if rel else c @ np.linalg.inv(m.rcell)
            m.labels[name] = name if label is None else label
            if isinstance(arg, np.ndarray):
                arg[0] += 5.0
    elif op in (2, 3):
        name = str(rng.choice(m.names + ["undefined"]) if m.names else "undefined")
        log.append(("remove", name))
        k.remove_hs_point(name)
        if name in m.names:
            m.names.remove(name)
            del m.coords[name], m.labels[name]
            new = []
            for s in m.path:
                cur = []
                for p in s:
                    if p == name:
                        new.append(cur)
                        cur = []
                    else:
                        cur.append(p)
                new.append(cur)
            m.path = [s for s in new if len(s) >= 2]
    elif op in (4, 5):
        if not m.names:
            return k, m
        p = random_path(rng, m.names)
        log.append(("path", p))
        k.path = p if rng.random() < 0.5 else ("|".join("-".join(s) for s in p) if rng.random() < 0.6 else tuple(tuple(s) for s in p))
        m.path = [list(s) for s in p]
        p[0][0] = "changed"
    elif op == 6:
        j = int(rng.integers(6))
        log.append(("bad path", j))
        good = random_path(rng, m.names) if m.names else []
        bad = [
            good + [["UNDEFINED", "X1"]], "A", "UNDEFINED-X", good + [[m.names[0]]] if m.names else "Q", "|".join("-".join(s) for s in good) + "|", good + [[]],
        ][j]
        refused = lambda: setattr(k, "path", bad)
    elif op == 7:
        n = int(rng.integers(0, 6))
        log.append(("n", n))
        k.n = n
        m.n = n
    elif op == 8:
        bad = [2.5, "3", None, [4], 1e2][int(rng.integers(5))]
        log.append(("bad n", repr(bad)))
        refused = lambda: setattr(k, "n", bad)
    elif op == 10:
        # a point is replaced by another one of the same name, the same path is set again
        if not m.names:
            return k, m
        name = str(rng.choice(sum(m.path, m.names)))
        c = np.round(rng.uniform(-1, 1, size=3), 3)
        label = m.labels[name] if rng.random() < 0.6 else f"m_{name}"
        log.append(("move", name, c.tolist(), label))
        k.remove_hs_point(name)
        k.add_hs_point(name, c, label=label)
        k.path = [list(s) for s in m.path]
        m.names = [x for x in m.names if x != name] + [name]
        m.coords[name], m.labels[name] = c.copy(), label
    else:
        log.append(("copy",))
        c = k.copy()
        check(T, c, m, full=False)
        # changing one does not change the other
        keep, other = (k, c) if rng.random() < 0.5 else (c, k)
        s = state(keep)
        other.add_hs_point("COPY_ONLY", [0.1, 0.2, 0.3])
        for a in other.hs_coordinates:
            other.hs_coordinates[a] += 1.0
        other.rcell = other.rcell * 2
        if other.path:
            other.path[0][0] = "changed"
            other.path.append(["q", "r"])
        other._n = 12345
        T.ok(state(keep) == s, "copies are independent")
        k = keep
    if refused is not None:
        if T.raises(ValueError, refused, "refused with ValueError"):
            T.ok(state(k) == before, "a refused operation leaves the object unchanged", lambda: f"{before} {state(k)}")
    return k, m


def run(T):
    rng = T.rng
    for i in T.loop(1200, seconds=30, name="histories of operations"):
        seed = int(rng.integers(1 << 31))
        r = np.random.default_rng(seed)
        log = []
        with T.case(history_seed=seed, operations=log):
            c = create(T, r)
            if c is None:
                continue
            k, m = c
            log.append(("created", m.names, m.path, m.n))
            check(T, k, m)
            for _ in range(int(r.integers(1, 14))):
                k, m = step(T, k, m, r, log)
                check(T, k, m, full=bool(r.random() < 0.6))
            check(T, k, m)
    with T.case(part="refused creation"):
        eye = np.eye(3)
        two = [[0, 0, 0], [0.5, 0, 0]]
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, names=["A"]), "wrong number of names")
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, names=["A", "B", "C"]), "wrong number of names")
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, labels=["A"]), "wrong number of labels")
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, labels=["A", "B", "C"]), "wrong number of labels")
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, names=["A", "A"]), "repeated names")
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, names=["A", "B"], path="A-C"), "undefined point in the path")
        T.raises(ValueError, lambda: Kpoints(eye, coordinates=two, names=["A", "B"], path=[["A"]]), "single point in a subpath")
        T.raises(ValueError, lambda: Kpoints(eye, names=["A", "B"], labels=["A", "B"]), "names without coordinates")
