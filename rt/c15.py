import copy

import numpy as np
from wulfric.constants import ATOM_SPECIES
from wulfric.crystal import validate_atoms

from rt import xtal


def sized(x):
    try:
        len(x)
        return True
    except TypeError:
        return False


def valid(atoms, required):
    if not all(sized(v) for v in atoms.values()):
        return False
    if len({len(v) for v in atoms.values()}) > 1:
        return False
    if any(k not in atoms for k in required):
        return False
    if "positions" in atoms:
        p = atoms["positions"]
        try:
            a = np.array(p)
        except ValueError:
            return False
        if a.ndim != 2 or a.shape[1] != 3:
            return False
    if "names" in atoms and not all(isinstance(x, str) for x in atoms["names"]):
        return False
    if "species" in atoms and not all(isinstance(x, str) and (x == "X" or x in ATOM_SPECIES) for x in atoms["species"]):
        return False
    if "spglib_types" in atoms and not all(isinstance(x, int) and x >= 1 for x in atoms["spglib_types"]):
        return False
    return True


def wrap(rng, lst):
    k = rng.integers(3)
    return list(lst) if k else tuple(lst)


def make(rng):
    N = int(rng.choice([0, 1, 1, 2, 3, 4, 5]))
    d = {}
    lens = lambda: N if rng.random() < 0.95 else max(0, N + int(rng.integers(-1, 2)))
    bad = lambda: rng.random() < 0.12
    if rng.random() < 0.75:
        n = lens()
        p = rng.normal(size=(n, 3))
        k = int(rng.integers(8))
        if k == 0:
            p = p.tolist()
        elif k == 1:
            p = [tuple(x) for x in p]
        elif k == 2:
            p = [x for x in p]
        if bad():
            j = int(rng.integers(7))
            p = [rng.normal(size=(n, 2)), rng.normal(size=n), rng.normal(size=(n, 3, 1)), [[0.0, 0.0, 0.0][: 3 - (i == n - 1)] for i in range(n)], [[0.0] * 4 for _ in range(n)], [0.0] * n, rng.normal(size=(n, 3, 3))][j]
        d["positions"] = p
    if rng.random() < 0.5:
        v = [f"n{i}" for i in range(lens())]
        if v and bad():
            v[int(rng.integers(len(v)))] = [1, None, b"x", 2.5, ["a"]][int(rng.integers(5))]
        d["names"] = wrap(rng, v)
    if rng.random() < 0.5:
        v = [ATOM_SPECIES[int(rng.integers(len(ATOM_SPECIES)))] if rng.random() < 0.9 else "X" for _ in range(lens())]
        if v and bad():
            v[int(rng.integers(len(v)))] = ["cr", "CR", "Xx", "", "x", " Cr", "Cr1", 5, None, ["Cr"], "XX", "D"][int(rng.integers(12))]
        d["species"] = wrap(rng, v)
    if rng.random() < 0.5:
        v = [int(rng.integers(1, 5)) for _ in range(lens())]
        if v and bad():
            v[int(rng.integers(len(v)))] = [0, -1, 1.0, 2.5, "1", None, -7][int(rng.integers(7))]
        d["spglib_types"] = wrap(rng, v)
    if rng.random() < 0.3:
        d["extra"] = [list(range(lens())), 5, None, np.zeros(N), "a" * N, 2.5][int(rng.integers(6)) if bad() else int(rng.choice([0, 3]))]
    req = [k for k in ("positions", "names", "species", "spglib_types", "extra", "missing") if rng.random() < (0.03 if k == "missing" else 0.15)]
    return d, req


def run(T):
    rng = T.rng
    counts = {True: 0, False: 0}
    for i in T.loop(12000, seconds=15, name="dictionaries"):
        d, req = make(rng)
        with T.case(atoms={k: repr(v) for k, v in d.items()}, required=req):
            want = valid(d, req)
            counts[want] += 1
            d0 = copy.deepcopy(d)
            r0 = list(req)
            kw = {} if not req and rng.random() < 0.5 else dict(required_keys=req)
            got = validate_atoms(d, raise_errors=False, **kw)
            T.ok(got is want, f"returns {want} {'if and only if valid'}", got)
            try:
                got = validate_atoms(d, **kw) if rng.random() < 0.5 else validate_atoms(d, raise_errors=True, **kw)
                raised = False
            except (TypeError, ValueError):
                raised = True
            T.ok(raised != want, "raises TypeError or ValueError exactly when it would return False")
            T.ok(raised or got is True, "returns True")
            T.ok(repr(d) == repr(d0) and xtal.same(d, d0) and req == r0, "input is not modified")
    with T.case(part="both outcomes occur"):
        T.ok(min(counts.values()) > 100 or T.cases < 500, "generator reaches both outcomes", counts)
