"""Single-atom crystals of every lattice type with controlled conventional parameters (boundaries included)."""
import numpy as np

from rt import gen

PRIM = dict(
    P=np.eye(3),
    I=np.array([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]]),
    F=np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]),
    C=np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]]),
    R=np.array([[2, 1, 1], [-1, 1, 1], [-1, -2, 1]]) / 3,
)


def from_params(a, b, c, al, be, ga):
    ca, cb, cg = (np.cos(np.radians(x)) for x in (al, be, ga))
    sg = np.sin(np.radians(ga))
    x = (ca - cb * cg) / sg
    return np.array([[a, 0, 0], [b * cg, b * sg, 0], [c * cb, c * x, c * np.sqrt(1 - cb * cb - x * x)]])


def special(rng, lo=2.0, hi=7.0):
    return round(float(rng.uniform(lo, hi)), int(rng.integers(1, 5)))


def lattice(rng, lt=None):
    """(lattice type, conventional cell, note)"""
    lt = lt or str(rng.choice(["tI", "oF", "oI", "oC", "hR", "mC", "aP", "mP", "oP", "tP", "hP", "cF", "cI", "cP"]))
    note = ""
    a, b, c = (special(rng) for _ in range(3))
    al = be = ga = 90.0
    if lt[0] == "c":
        b = c = a
    elif lt == "tI" or lt == "tP":
        b = a
        if rng.random() < 0.1:
            c = a * (1 + float(rng.choice([1e-3, -1e-3])))
            note = "nearly cubic"
    elif lt == "oF":
        if rng.random() < 0.25:
            b, c = sorted((b, c + 0.7))
            a = 1 / np.sqrt(1 / b**2 + 1 / c**2)
            note = "ORCF3"
            p = rng.permutation(3)
            a, b, c = np.array([a, b, c])[p]
    elif lt in ("hP", "hR"):
        b, ga = a, 120.0
        if lt == "hR":
            if rng.random() < 0.3:
                c = a * np.sqrt(1.5) * (1 + float(rng.choice([1e-2, -1e-2, 0.2, -0.2])))
                note = "near a cubic lattice"
            else:
                c = a * float(rng.uniform(0.5, 4))
    elif lt[0] == "m":
        be = float(rng.uniform(91, 140)) if rng.random() < 0.8 else float(rng.choice([100, 105, 110, 120, 130]))
        if lt == "mC" and rng.random() < 0.3:
            # SC: kgamma = 90 <=> (unique axis) = (other centred axis) * sin
            b = a * np.sin(np.radians(be))
            note = "MCLC2"
        elif lt == "mC" and rng.random() < 0.3:
            # b cos(al)/c + b^2 sin^2(al)/a^2 = 1 with (SC) a = b here, b = a here, al = 180 - be
            x = -a * np.cos(np.radians(be)) / c
            if x < 0.95:
                b = a * np.sin(np.radians(be)) / np.sqrt(1 - x)
                note = "MCLC4"
    elif lt == "aP":
        if rng.random() < 0.3:
            # one right reciprocal angle
            r = from_params(1 / a, 1 / b, 1 / c, float(rng.uniform(60, 85)), float(rng.uniform(62, 85)), 90.0)
            if rng.random() < 0.5:
                r[2, :2] *= -1
            return lt, np.linalg.inv(r).T, "TRI2"
        for _ in range(50):
            al, be, ga = rng.uniform(60, 120, size=3)
            t = sorted((al, be, ga))
            if t[2] < t[0] + t[1] - 10 and sum(t) < 350:
                break
    return lt, from_params(a, b, c, al, be, ga), note


def crystal(rng, lt=None, rotate=True, choose=True):
    lt, conv, note = lattice(rng, lt)
    cell = PRIM[lt[1]] @ conv
    if abs(np.linalg.det(cell)) < 0.05 * np.linalg.norm(cell, axis=1).prod():
        return None
    if choose:
        cell = gen.unimodular(rng, int(rng.integers(0, 3))) @ cell
    if rotate:
        cell = cell @ gen.rotation(rng)
    return cell, dict(positions=np.zeros((1, 3)), species=["Cr"]), dict(lattice=lt, note=note, conv=conv)
