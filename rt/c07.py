import copy

import numpy as np
import wulfric

from rt import gen, xtal
from wulfric.crystal import get_conventional

LT = 1e-5  # relative tolerance of lengths
AT = 2e-4  # degrees


def params(c):
    l = np.linalg.norm(c, axis=1)
    ang = [np.degrees(np.arccos(np.clip(c[i] @ c[j] / l[i] / l[j], -1, 1))) for i, j in ((1, 2), (0, 2), (0, 1))]
    return (*l, *ang)


def signed_permutation(T, m):
    r = np.round(m)
    return np.abs(m - r).max() < 1e-5 and (np.abs(r).sum(axis=0) == 1).all() and (np.abs(r).sum(axis=1) == 1).all()


def one_side(angles, tol):
    return max(angles) < 90 + tol or min(angles) >= 90 - tol


def reduced_upto_signs(g, tol):
    """g: metric; True if a permutation and signs make it Niggli reduced within tol"""
    p = np.argsort(np.diag(g))
    g = g[np.ix_(p, p)]
    A, B, C = np.diag(g)
    x, y, z = 2 * abs(g[1, 2]), 2 * abs(g[0, 2]), 2 * abs(g[0, 1])
    s = g[1, 2] * g[0, 2] * g[0, 1]
    if x > B + tol or y > A + tol or z > A + tol:
        return False
    if s > 0 and min(x, y, z) > tol:  # signs make all three positive
        return True
    # signs make all three non-positive: diagonal condition
    return A + B - x - y - z >= -4 * tol


def run(T):
    rng = T.rng

    def crystals():
        low = [sg for sg in range(1, 75)]
        yield from xtal.stream(T, 5, 22, sgs=low, name="triclinic, monoclinic, orthorhombic")
        yield from xtal.stream(T, 12, 10, sgs=[1, 2], name="triclinic")
        yield from xtal.stream(T, 4, 8, sgs=[146, 148, 155, 160, 161, 166, 167], name="rhombohedral")
        yield from xtal.stream(T, 1, 10, sgs=range(75, 231), name="others")

    for cell, atoms, data, info in crystals():
        lt = data.crystal_family + data.centring_type
        with T.case(**xtal.given(cell, atoms, info, lattice_type=lt)):
            std = np.array(data.conventional_cell)
            if lt == "hR":  # any choice of signs of the primitive vectors
                for flip in ([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]):
                    d2 = copy.copy(data)
                    object.__setattr__(d2, "primitive_cell", np.array(data.primitive_cell) * np.array(flip)[:, None])
                    object.__setattr__(d2, "primitive_positions", np.array(data.primitive_positions) * flip)
                    q = params(get_conventional(cell, atoms, convention="SC", spglib_data=d2)[0])
                    T.ok(max(q[3:]) - min(q[3:]) < 5 * AT, "SC: equal angles for hR, whatever the signs of the vectors", (flip, q))
            for conv in ("SC", "HPKOT"):
                c, _ = get_conventional(cell, atoms, convention=conv, spglib_data=data)
                vol = abs(np.linalg.det(c))
                base = std
                if conv == "SC" and lt == "hR":
                    base = np.array(data.primitive_cell)
                m = c @ np.linalg.inv(base)
                if conv == "HPKOT" and lt == "aP":
                    T.ok(gen.integer_matrix(m) and abs(abs(np.linalg.det(m)) - 1) < 1e-6, "HPKOT aP: same lattice")
                else:
                    T.ok(signed_permutation(T, m), f"{conv}: vectors of the standard cell are only permuted and flipped", m)
                T.ok(np.linalg.det(m) > 0, f"{conv}: handedness of the standard cell is kept", m)
                a, b, cc, al, be, ga = params(c)
                tl = LT * max(a, b, cc) + 1e-6
                if conv == "SC":
                    if lt in ("oP", "oF", "oI"):
                        T.ok(a <= b + tl and b <= cc + tl, "SC: a <= b <= c for oP, oF, oI", (a, b, cc))
                    if lt in ("oC", "oA"):
                        T.ok(a <= b + tl, "SC: a <= b for oC", (a, b, cc))
                        # the centring is in the ab plane
                        f = ((c[0] + c[1]) / 2) @ np.linalg.inv(data.primitive_cell)
                        T.ok(np.abs(f - np.round(f)).max() < 1e-3, "SC: oC is centred on the ab face", f)
                    if lt[0] == "m":
                        T.ok(abs(be - 90) < AT and abs(ga - 90) < AT and al <= 90 + AT, "SC: the only non-right angle is alpha <= 90", (al, be, ga))
                        if lt == "mP":
                            T.ok(b <= cc + tl, "SC: b <= c for mP", (b, cc))
                        else:
                            f = ((c[0] + c[1]) / 2) @ np.linalg.inv(data.primitive_cell)
                            T.ok(np.abs(f - np.round(f)).max() < 1e-3, "SC: mC is centred on the ab face", f)
                    if lt == "aP":
                        r = params(2 * np.pi * np.linalg.inv(c).T)[3:]
                        T.ok(one_side(r, AT), "SC: reciprocal angles all acute or all non-acute", r)
                        d = [abs(x - 90) for x in r]
                        T.ok(d[2] <= min(d) + 2 * AT, "SC: gamma* is the closest to 90", r)
                    if lt == "hR":
                        T.ok(abs(a - b) < 10 * tl and abs(a - cc) < 10 * tl, "SC: equal lengths for hR", (a, b, cc))
                        T.ok(abs(al - be) < 5 * AT and abs(al - ga) < 5 * AT, "SC: equal angles for hR", (al, be, ga))
                    if lt[0] == "t":
                        T.ok(abs(a - b) < tl and max(abs(x - 90) for x in (al, be, ga)) < AT, "tetragonal metric", (a, b, al, be, ga))
                elif lt == "aP":
                    R = 2 * np.pi * np.linalg.inv(c).T
                    g = R @ R.T
                    r = params(R)[3:]
                    T.ok(one_side(r, AT), "HPKOT aP: reciprocal angles all acute or all non-acute", r)
                    s = np.abs([g[1, 2], g[0, 2], g[0, 1]])
                    sc = np.diag(g).max()
                    T.ok(s[2] <= s.min() + 1e-6 * sc, "HPKOT aP: |b1*.b2*| is the smallest product", s)
                    T.ok(reduced_upto_signs(g, 2e-4 * sc), "HPKOT aP: reciprocal cell is Niggli reduced up to permutation and signs", g)
