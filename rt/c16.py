import copy

import numpy as np
import wulfric
from wulfric.constants import ATOM_SPECIES

from rt import gen, lattices, xtal

TWO = [s for s in ATOM_SPECIES if len(s) == 2]
ONE = [s for s in ATOM_SPECIES if len(s) == 1]


def species_of(name):
    low = name.lower()
    for s in TWO:
        if s.lower() in low:
            return s
    r = "X"
    for s in ONE:
        if s.lower() in low:
            r = s
    return r


def run(T):
    rng = T.rng
    pool = ["Cr1", "Cr2", "cr", "Br", "S1", "s", "q", "Q", "1", "?", "Fe3+", "X", "x1", "He", "H2", "Og", "a_b", "J", "zz", "ZZ"]
    for i in T.loop(4000, seconds=10, name="types"):
        N = int(rng.integers(1, 8))
        atoms = {}
        names = [pool[j] for j in rng.integers(len(pool), size=N)]
        spec = [ATOM_SPECIES[j] if rng.random() < 0.9 else "X" for j in rng.integers(0, int(rng.choice([3, 10, 118])), size=N)]
        types = [int(x) for x in rng.integers(1, 6, size=N)]
        use = [bool(rng.random() < p) for p in (0.5, 0.5, 0.3, 0.5)]
        if use[0]:
            atoms["names"] = names
        if use[1]:
            atoms["species"] = spec
        if use[2]:
            atoms["spglib_types"] = types
        if use[3]:
            atoms["positions"] = rng.normal(size=(N, 3))
        with T.case(atoms=atoms):
            a0 = copy.deepcopy(atoms)
            if not any(use[:3]):
                T.raises(ValueError, lambda: wulfric.get_spglib_types(atoms), "no identifiers: ValueError")
                continue
            t = wulfric.get_spglib_types(atoms)
            T.ok(len(t) == N and all(isinstance(x, int) and x >= 1 for x in t), "positive integers, one per atom", t)
            if use[2]:
                T.ok(list(t) == types, "explicit spglib_types are used as given", t)
                ids = types
            elif use[1]:
                ids = spec
            else:
                ids = [species_of(n) for n in names]
                ids = [n if s == "X" else s for n, s in zip(names, ids)]
            T.ok(all((t[a] == t[b]) == (ids[a] == ids[b]) for a in range(N) for b in range(a)), "types are equal if and only if the identifiers are equal", (ids, t))
            T.ok(xtal.same(atoms, a0), "input is not modified")
    for i in T.loop(350, seconds=15, name="data"):
        sg = int(rng.integers(1, 231))
        r = xtal.make(sg, rng, int(rng.integers(4)))
        if r is None:
            continue
        cell, atoms, info = r
        with T.case(**xtal.given(cell, atoms, info)):
            try:
                data = wulfric.get_spglib_data(cell, atoms)
            except RuntimeError:
                continue
            c0, a0 = xtal.frozen(cell), xtal.frozen(atoms)
            types = wulfric.get_spglib_types(atoms)
            T.ok(np.array_equal(data.original_cell, cell), "data record the given cell")
            T.ok(np.array_equal(data.original_positions, atoms["positions"]), "data record the given positions")
            T.ok(list(data.original_types) == list(types), "data record the types")
            v = wulfric.validate_spglib_data
            T.ok(v(cell, atoms, data) is None, "accepted for the same crystal")
            T.ok(v(cell.tolist(), dict(atoms, positions=np.array(atoms["positions"]).tolist()), data) is None, "accepted for lists")
            T.ok(v(cell + 1e-11, dict(atoms, positions=np.array(atoms["positions"]) + 1e-11), data) is None, "accepted within numerical tolerance")
            d = np.zeros((3, 3))
            d[int(rng.integers(3)), int(rng.integers(3))] = float(rng.choice([1e-2, -0.1, 1.0]))
            T.raises(ValueError, lambda: v(cell + d, atoms, data), "refused for another cell")
            p = np.array(atoms["positions"], float)
            j, k = int(rng.integers(len(p))), int(rng.integers(3))
            q = p.copy()
            q[j, k] += float(rng.choice([1e-2, -0.1, 1.0]))
            T.raises(ValueError, lambda: v(cell, dict(atoms, positions=q), data), "refused for other positions")
            N = len(p)
            for bad in ([t + 1 for t in types], types[:j] + [types[j] + 1] + types[j + 1 :]):
                T.raises(ValueError, lambda: v(cell, dict(positions=p, spglib_types=bad), data), "refused for other types")
            if N > 1:
                T.raises(ValueError, lambda: v(cell, {k2: x[:-1] for k2, x in atoms.items()}, data), "refused for fewer atoms")
                perm = np.roll(np.arange(N), 1)
                T.raises(ValueError, lambda: v(cell, {k2: (x[perm] if isinstance(x, np.ndarray) else [x[m] for m in perm]) for k2, x in atoms.items()}, data), "refused for another order of positions")
            T.raises(ValueError, lambda: v(cell, {k2: (np.concatenate([x, x[:1] + 0.01]) if isinstance(x, np.ndarray) else x + x[:1]) for k2, x in atoms.items()}, data), "refused for more atoms")
            T.ok(xtal.same(cell, c0) and xtal.same(atoms, a0), "input is not modified")
            # the data do not follow later changes of the given arrays
            s = xtal.data_state(data)
            cell += 1.0
            atoms["positions"] += 0.1
            if "spglib_types" in atoms:
                atoms["spglib_types"][0] += 5
            T.ok(xtal.same(xtal.data_state(data), s), "data do not share memory with the given crystal")
            T.raises(ValueError, lambda: v(cell, atoms, data), "refused after the crystal was changed")
