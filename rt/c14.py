import io
import os
import tempfile

import numpy as np
from wulfric.io import dump_poscar, load_poscar

SPECIES = ["Cr", "Br", "S", "Fe", "O", "Ni", "H", "He", "C", "Cs", "Y", "X", "Og", "Ac"]
COMMENTS = [None, "simple", "two\nlines", "three\r\nlines\nin all", "\ntrailing and leading\n", "unicode \u0393 \u00e9", "1.0", "tabs\tand   spaces", "cr\ronly", "Direct", "a\n\nb", "\n", ""]


def near(T, a, b, half, clause):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return T.ok(False, clause, f"shape {a.shape} instead of {b.shape}")
    tol = half + 1e-12 + 1e-13 * np.abs(b).max() if b.size else 0
    return T.ok(a.size == 0 or np.abs(a - b).max() <= tol, clause, lambda: f"{a.tolist()} {b.tolist()}")


def random_cell(rng, big=1.0):
    while True:
        m = rng.normal(size=(3, 3)) * 3 * big + np.diag(rng.uniform(2, 9, size=3)) * big
        if abs(np.linalg.det(m)) > 0.15 * np.linalg.norm(m, axis=1).prod():
            return m


def round_trips(T, tmp):
    rng = T.rng
    for i in T.loop(1500, seconds=15, name="round trips"):
        mode = ["Direct", "Cartesian"][i % 2]
        decimals = int(rng.integers(0, 13)) if mode == "Direct" else int(rng.integers(2, 13))
        cell = random_cell(rng, float(rng.choice([3.0 if decimals < 3 else 1.0, 40, 900], p=[0.7, 0.2, 0.1])))
        if rng.random() < 0.3:
            cell[2] *= -1
        if rng.random() < 0.15:
            # small components
            a, b = rng.permutation(3)[:2]
            cell[a, b] = float(rng.choice([0.0, -0.0, 1.0])) if rng.random() < 0.2 else float(rng.normal()) * 10.0 ** -int(rng.integers(2, 10))
            if abs(np.linalg.det(cell)) < 0.15 * np.linalg.norm(cell, axis=1).prod():
                continue
        N = int(rng.integers(1, 9)) if rng.random() < 0.9 else int(rng.integers(9, 120))
        sp = [SPECIES[j] for j in rng.integers(0, int(rng.integers(1, len(SPECIES))) or 1, size=N)]
        pos = rng.uniform(-1.5, 2.5, size=(N, 3))
        if rng.random() < 0.1:
            pos *= float(rng.choice([50, 2000, 1e5]))
        atoms = dict(positions=pos if rng.random() < 0.5 else [p for p in pos])
        kind = int(rng.integers(3))
        if kind == 0 and "X" not in sp and not any(len(s) == 1 for s in sp):
            atoms["names"] = [f"{s.lower() if rng.random() < 0.3 else s}{j}" for j, s in enumerate(sp)]
        else:
            atoms["species"] = sp
            if kind == 1:
                atoms["names"] = [f"at{j}" for j in range(N)]
        comment = COMMENTS[int(rng.integers(len(COMMENTS)))]
        target = int(rng.integers(3))
        with T.case(cell=cell, atoms=atoms, mode=mode, decimals=decimals, comment=comment, target=target):
            kw = dict(decimals=decimals, mode=mode)
            if comment is not None:
                kw["comment"] = comment
            if decimals == 8 and rng.random() < 0.5:
                del kw["decimals"]
            if mode == "Direct" and rng.random() < 0.5:
                del kw["mode"]
            c0, p0 = cell.copy(), pos.copy()
            if target == 0:
                f = io.StringIO()
                dump_poscar(cell, atoms, f, **kw)
                text = f.getvalue()
                cell2, at2, com2 = load_poscar(io.StringIO(text))
            elif target == 1:
                name = os.path.join(tmp, "some.poscar")
                dump_poscar(cell if rng.random() < 0.5 else cell.tolist(), atoms, name, **kw)
                cell2, at2, com2 = load_poscar(name)
            else:
                name = os.path.join(tmp, "POSCAR")
                dump_poscar(cell, atoms, name, **kw)
                cell2, at2, com2 = load_poscar(tmp)
            T.ok(np.array_equal(cell, c0) and np.array_equal(np.array(atoms["positions"]), p0), "input is not modified")
            half = 0.5 * 10.0**-decimals
            near(T, cell2, cell, half, "same cell to the written precision")
            T.ok(len(at2["names"]) == N == len(at2["positions"]), "same number of atoms")
            # expected order: grouped by species, relative order kept
            got = list(at2["names"])
            groups = list(dict.fromkeys(got))
            T.ok([g for g in groups for _ in range(got.count(g))] == got, "atoms are grouped by species", got)
            T.ok(sorted(got) == sorted(sp), "same species", (got, sp))
            order = [j for g in groups for j in range(N) if sp[j] == g]
            want = pos[order]
            if mode == "Direct":
                near(T, at2["positions"], want, half, "same positions to the written precision (relative order kept)")
            else:
                # the written numbers are the Cartesian coordinates, cell2 is the written cell
                back = np.array(at2["positions"]) @ cell2
                near(T, back, want @ cell, half + 1e-11 * max(1.0, np.abs(want @ cell).max()), "same Cartesian positions to the written precision (relative order kept)")
            if comment is not None:
                T.ok(com2 == comment.replace("\r", " ").replace("\n", " ").strip() or com2.split() == comment.split(), "comment on one line", com2)
                T.ok(com2.split() == comment.split(), "comment is kept", com2)
            else:
                T.ok(isinstance(com2, str) and "\n" not in com2, "default comment")


def fmt(rng, x):
    return [f"{x:.12f}", f"{x:.12e}", f"  {x:.14f}"][int(rng.integers(3))]


def files(T, tmp):
    rng = T.rng
    for i in T.loop(1500, seconds=15, name="files"):
        cell = random_cell(rng)
        if rng.random() < 0.3:
            cell[0] *= -1
        blocks = [(SPECIES[int(rng.integers(11))], int(rng.integers(1, 4))) for _ in range(int(rng.integers(1, 5)))]
        N = sum(n for _, n in blocks)
        cart = bool(rng.random() < 0.5)
        given = rng.uniform(-1, 2, size=(N, 3)) * (4 if cart else 1)
        kind = int(rng.integers(4))
        if kind == 0:
            scale = [1.0]
        elif kind == 1:
            scale = [float(np.round(rng.uniform(0.3, 5), 3))]
        elif kind == 2:
            scale = [-float(np.round(rng.uniform(5, 200), 3))]
        else:
            scale = [float(np.round(rng.uniform(0.3, 5), 3)) for _ in range(3)]
        selective = bool(rng.random() < 0.4)
        names = bool(rng.random() < 0.7)
        header = str(rng.choice(["Cartesian", "cartesian", "Kartesian", "c", "k", "C"] if cart else ["Direct", "direct", "d", "D", "Fractional"]))
        extra = bool(rng.random() < 0.2)
        lines = ["comment line " + str(i), " ".join(repr(s) for s in scale)]
        lines += [" ".join(fmt(rng, x) for x in v) for v in cell]
        if names:
            lines.append("  ".join(s for s, _ in blocks))
        lines.append(" ".join(str(n) for _, n in blocks))
        if selective:
            lines.append(str(rng.choice(["Selective dynamics", "selective", "S", "s"])))
        lines.append(header)
        for p in given:
            l = " ".join(fmt(rng, x) for x in p)
            if selective:
                l += " " + " ".join(rng.choice(["T", "F"], size=3))
            if extra:
                l += " Cr1"
            lines.append(l)
        if rng.random() < 0.3:
            lines += ["", "0.0 0.0 0.0"]
        text = "\n".join(lines) + "\n"
        with T.case(text=text):
            c2, at2, com = load_poscar(io.StringIO(text))
            if len(scale) == 3:
                s = np.array(scale)
            elif scale[0] > 0:
                s = np.array(scale * 3)
            else:
                s = np.ones(3) * (-scale[0] / abs(np.linalg.det(cell))) ** (1 / 3)
            want = cell * s
            T.close(c2, want, "scale factor is applied to the cell", 1e-9)
            if scale[0] < 0:
                T.close(abs(np.linalg.det(c2)), -scale[0], "negative scale factor is the total volume", 1e-8, -scale[0])
            if cart:
                T.close(np.array(at2["positions"]) @ c2, given * s, "Cartesian positions (scaled)", 1e-8)
            else:
                T.close(at2["positions"], given, "Direct positions are not scaled", 1e-9)
            flat = [j for j, (_, n) in enumerate(blocks) for _ in range(n)]
            T.ok(len(at2["names"]) == N, "one name per atom")
            if names:
                T.ok(list(at2["names"]) == [blocks[j][0] for j in flat], "species of the file", at2["names"])
            else:
                nm = list(at2["names"])
                T.ok(all((nm[x] == nm[y]) == (flat[x] == flat[y]) for x in range(N) for y in range(x)), "without species names atoms of one block have one name", nm)
            T.ok(com == lines[0], "comment", com)


def run(T):
    with tempfile.TemporaryDirectory() as tmp:
        old = os.getcwd()
        os.chdir(tmp)
        try:
            round_trips(T, tmp)
            files(T, tmp)
            with T.case(part="refused"):
                at = dict(positions=[[0, 0, 0.0]], species=["Cr"])
                T.raises(ValueError, lambda: dump_poscar(np.eye(3), at, io.StringIO(), mode="direct?"), "unknown mode is refused")
                T.raises(ValueError, lambda: dump_poscar(np.eye(3), dict(positions=[[0, 0, 0.0]], names=["??"]), io.StringIO()), "species that can not be deduced are refused")
                T.raises(FileNotFoundError, lambda: load_poscar(os.path.join(tmp, "missing")), "missing file")
                base = "c\n{}\n1 0 0\n0 1 0\n0 0 1\nCr\n1\nDirect\n0 0 0\n"
                for s in ("1.0 2.0", "1 -1 1", "0 1 1", "1 1 1 1"):
                    T.raises(ValueError, lambda: load_poscar(io.StringIO(base.format(s))), "malformed scale factor is refused")
        finally:
            os.chdir(old)
