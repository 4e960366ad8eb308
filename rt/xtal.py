"""Stream of crystals (every space group, special and generic metrics) for C06-C11 and C23."""
import copy

import numpy as np
import wulfric

from rt import gen

FAMILY = lambda sg: "a" if sg < 3 else "m" if sg < 16 else "o" if sg < 75 else "t" if sg < 143 else "h" if sg < 195 else "c"


def broad_metric(rots, rng):
    """Metric with widely varying ratios and angles."""
    l = np.exp(rng.uniform(-0.9, 0.9, size=3))
    m = np.eye(3) + rng.uniform(0.1, 0.8) * rng.normal(size=(3, 3))
    m = np.diag(l) @ m
    g = gen.symmetrize(rots, m @ m.T)
    return g / np.cbrt(np.linalg.det(g)) if np.linalg.det(g) > 1e-3 else g * 0


def ordered_metric(rots, rng):
    """Equal or nearly critical lengths."""
    d = rng.choice([1.0, 1.0, 1.2, 2.0, 0.8], size=3)
    g = np.diag(d).astype(float)
    if rng.random() < 0.5:
        i, j = rng.choice(3, 2, replace=False)
        g[i, j] = g[j, i] = rng.choice([-0.3, 0.3, 0.2, -0.5, 0.45]) * np.sqrt(g[i, i] * g[j, j])
    return gen.symmetrize(rots, g)


METRICS = [None, broad_metric, gen.accidental_metric, ordered_metric]


def make(sg, rng, variant):
    """(cell, atoms, info) of the space group sg or None."""
    metric = METRICS[variant % len(METRICS)]
    r = gen.crystal(sg, rng, rotate=bool(rng.random() < 0.75), transform=bool(rng.random() < 0.7), metric=metric, special=bool(rng.random() < 0.15))
    if r is None:
        return None
    cell, at, hall = r
    n = np.linalg.norm(cell, axis=1)
    v = abs(np.linalg.det(cell))
    if v < 0.02 * n.prod() or n.max() > 40 * n.min():
        return None
    pos, spec = at["positions"], at["species"]
    info = dict(sg=sg, hall=hall, variant=variant)
    if len(pos) <= 24 and rng.random() < 0.15:  # the given cell is not primitive
        k = int(rng.integers(3))
        m = np.eye(3)
        m[k, k] = 2
        cell = m @ cell
        p = pos.copy()
        p[:, k] /= 2
        q = p.copy()
        q[:, k] += 0.5
        pos, spec = np.concatenate([p, q]), spec + spec
        info["supercell"] = k
    if rng.random() < 0.2:  # left-handed
        cell = cell[[1, 0, 2]]
        pos = pos[:, [1, 0, 2]]
        info["left"] = True
    N = len(pos)
    kind = rng.integers(4)
    atoms = dict(positions=pos)
    if kind == 0:
        atoms["species"] = list(spec)
    elif kind == 1:
        atoms["names"] = [f"{s}{i + 1}" for i, s in enumerate(spec)]
    elif kind == 2:
        atoms["species"] = list(spec)
        atoms["names"] = [f"{s}_{i}" for i, s in enumerate(spec)]
        atoms["spins"] = [float(i) for i in range(N)]
    else:
        t = {s: int(k) for s, k in zip(sorted(set(spec)), rng.permutation(9)[: len(set(spec))] + 1)}
        atoms["spglib_types"] = [t[s] for s in spec]
        atoms["g_factors"] = [2.0 + 0.01 * i for i in range(N)]
        atoms["species"] = list(spec)
    if rng.random() < 0.3:  # the same value for all atoms
        atoms["charges"] = [1.5] * N
    info["keys"] = sorted(atoms)
    return cell, atoms, info


def stream(T, per_sg, seconds, sgs=None, variants=(0, 1, 2, 3), name="crystals of all space groups"):
    """yields (cell, atoms, data, info); data = wulfric.get_spglib_data"""
    rng = T.rng
    sgs = list(range(1, 231)) if sgs is None else list(sgs)
    total = len(sgs) * per_sg
    order = []
    for k in range(int(per_sg * T.scale)):
        order += [(sg, variants[(k + i) % len(variants)]) for i, sg in enumerate(sgs)]
    for i in T.loop(len(order) / T.scale, seconds=seconds, name=name):
        sg, v = order[i]
        r = make(sg, rng, v)
        if r is None:
            continue
        cell, atoms, info = r
        try:
            data = wulfric.get_spglib_data(cell, atoms)
        except RuntimeError:
            continue  # spglib found no symmetry
        except Exception as e:
            if "detect symmetry" in str(e):
                continue
            with T.case(cell=cell, atoms=atoms):
                raise
            continue
        info["found"] = int(data.space_group_number)
        yield cell, atoms, data, info


def given(cell, atoms, info, **kw):
    return dict(cell=cell, atoms=atoms, info=info, **kw)


def frozen(x):
    return copy.deepcopy(x)


def same(a, b):
    """deep equality of inputs (values and types)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    return a == b


def data_state(d):
    out = {}
    for k in ("original_cell", "original_positions", "original_types", "conventional_cell", "conventional_positions", "conventional_types", "primitive_cell", "primitive_positions", "primitive_types", "space_group_number", "crystal_family", "centring_type", "symprec", "angle_tolerance"):
        out[k] = copy.deepcopy(getattr(d, k))
    return out


def types_of(atoms):
    """independent deduction of types (identifiers) from the given atoms"""
    if "spglib_types" in atoms:
        return [str(t) for t in atoms["spglib_types"]]
    if "species" in atoms:
        return list(atoms["species"])
    return [n.rstrip("0123456789_") for n in atoms["names"]]


CENTRED = dict(P=1, A=2, B=2, C=2, I=2, F=4)


def case_variants(rng, conv):
    return [conv, conv.lower(), conv.upper()][int(rng.integers(3))]
