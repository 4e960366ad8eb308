"""POSCAR: load_poscar reads what the format says, dump_poscar writes what load_poscar reads back.

Texts are Python strings in which the text of a symbolic number is a word of its own (a token).
Writing a number x with d decimals gives a word that reads as some number y with
|y - x| <= 10**(-d) / 2; writing it without a precision gives a word that reads as x.

Symbolic: cell, coordinates, scale factors, number of decimals; in `load` the number of atoms of
each species.  Enumerated: number and names of species (for dump also the number of atoms)."""
import io
import itertools
import os

import numpy

from contracts.common import *
from contracts.seqs import *

F = "wulfric.io._vasp."
A, Z = "\ue000", "\ue001"


# ------------------------------------------------------------------------------- texts and files
def half(p):
    """10**(-p) / 2 for an integer p"""
    return z3.Function("half_unit", z3.IntSort(), z3.RealSort())(zint(p))


class Texts:
    def __init__(self, vc, padding=("",)):
        self.vc = vc
        self.c = ctx()
        self.c.engine.render = self.render
        self.read = {}  # token -> number that is read
        self.units = []
        self.log = []  # number written, number read
        self.pad = vc.pick(padding) if len(padding) > 1 else padding[0]

    def token(self, v):
        t = f"{A}{len(self.c.tokens)}{Z}"
        self.c.tokens[t] = v
        return t

    def unit(self, p):
        h = SReal(half(p))
        self.c.fact(zbool(h > 0))
        for q, k in self.units:
            for a, b, x, y in ((p, q, h, k), (q, p, k, h)):
                self.c.fact(z3.Implies(zint(a) >= zint(b), zbool(x <= y)))
        self.units.append((p, h))
        return h

    def render(self, x, spec):
        """format(x, spec)"""
        if spec == "":
            return self.token(x)
        w, dot, p = spec.rpartition(".")
        if not dot or p[-1:] not in ("f", "F"):
            raise Unsupported(f"format {spec!r} of a number")
        p = p[:-1]
        p = self.c.tokens[p] if p in self.c.tokens else int(p)
        y = self.vc.fresh("written")
        h = self.unit(p)
        self.c.fact(z3.And(zbool(y - x <= h), zbool(x - y <= h)))
        self.log.append((x, y))
        # a number may be padded with blanks, it is never shortened
        return self.pad + self.token(y)


class File(io.StringIO):
    """a text file; what was written stays readable when it is closed"""

    text = None

    def close(self):
        if self.text is None:
            self.text = super().getvalue()
        super().close()

    def getvalue(self):
        return self.text if self.text is not None else super().getvalue()


class Disk:
    """open() of the module under contract: files in the memory"""

    cur = None

    def __init__(self, files=None, folders=()):
        self.files = dict(files or {})
        self.folders = set(folders)
        Disk.cur = self

    def __call__(self, name, mode="r", *a, **k):
        if name in self.folders:
            raise IsADirectoryError(name)
        if "w" in mode:
            self.files[name] = File()
            return self.files[name]
        if name not in self.files:
            raise FileNotFoundError(name)
        f = self.files[name]
        return File(f if isinstance(f, str) else f.getvalue())


def setup(L, eng):
    L.builtins["open"] = lambda *a, **k: Disk.cur(*a, **k)


def ok(vc, r, what):
    vc.check(r[0] == "ok", what, say(r[1]))
    if r[0] != "ok":
        raise PathEnd()
    return r[1]


# ------------------------------------------------------------------------------- what a file means
class Scale:
    """the second line of the file"""

    def __init__(self, vc, kind, cell):
        self.vc, self.kind = vc, kind
        if kind == "three":
            self.given = vc.reals("s1 s2 s3")
            vc.assume(And([x > 0 for x in self.given]))
            self.s = obj(self.given)
        else:
            x = vc.real("s")
            self.given = [x]
            vc.assume(x > 0 if kind == "one" else x < 0)
            self.s = obj([x] * 3)
            if kind == "volume":
                d = det3(cell)
                k = abs(x / abs(d)) ** (npshim.to_fraction("1/3") if hasattr(npshim, "to_fraction") else 1 / 3)
                self.s = obj([k] * 3)

    def check_cell(self, c2, cell):
        vc = self.vc
        vc.prove_eq(obj(c2), cell * self.s, "the scale factor is applied to the cell")
        if self.kind == "volume":
            s, x, d = self.s[0], self.given[0], det3(cell)
            vc.prove(s > 0, "the cell is scaled by a positive number")
            vc.prove_eq(s * s * s * abs(d), -x, "a negative scale factor is the volume")


BLOCKS = ["Cr", "Br", "S", "Cr"]


def head(T, scale, cell, names, counts, selective, mode, comment="comment line"):
    out = [comment, " ".join(T.token(x) for x in scale.given)]
    out += ["  ".join(T.token(x) for x in r) for r in cell]
    if names:
        out.append("   ".join(names))
    out.append(" ".join(T.token(n) if is_sym(n) else str(n) for n in counts))
    if selective:
        out.append(selective)
    out.append(mode)
    return [x + "\n" for x in out]


MODES = {"direct": ["Direct", "direct", "fractional", "D"], "cartesian": ["Cartesian", "cartesian", "Kartesian", "k", "C"]}
SELECTIVE = [None, "Selective dynamics", "selective", "s"]


class Lines(File):
    """a file whose last lines are symbolic in number"""

    def __init__(self, lines):
        super().__init__("")
        self.lines = lines

    def readlines(self, hint=-1):
        return self.lines

    def __iter__(self):
        raise Unsupported("iteration over the lines of a file of symbolic length")

    def read(self, *a):
        raise Unsupported("text of a file of symbolic length")

    readline = __next__ = getvalue = read


class Row(Sym):
    """a line of numbers, perhaps with more words"""

    def __init__(self, words):
        self.words = words

    def split(self, sep=None, maxsplit=-1):
        if (sep is not None and sep != " ") or maxsplit != -1:
            raise Unsupported("split of a line at another separator than blanks")
        return seq.GList(self.words)

    def strip(self, *a):
        return self

    rstrip = lstrip = strip

    def isinstance(self, t):
        return t is str

    def __repr__(self):
        return "<line>"

    __str__ = __repr__

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"str.{k} of a line of numbers")


LOADS = [("one", m, n, k) for m in MODES for n in (True, False) for k in (1, 2, 3)] + [(s, m, True, k) for s in ("volume", "three") for m in MODES for k in (1, 2)]


@harness(F + "load_poscar", "wulfric.geometry._geometry.get_volume", cases=LOADS, covers=["read"], setup=setup)
def load(vc, L, kind, mode, names, blocks):
    """any number of atoms of each species"""
    T = Texts(vc)
    cell = vc.matrix("cell")
    vc.assume(det3(cell) != 0)
    scale = Scale(vc, kind, cell)
    counts = [vc.int(f"n{i}") for i in range(blocks)]
    for n in counts:
        vc.assume(n >= 1)
    b = vc.pick(range(blocks))
    if blocks == 2 and names and kind == "one" and vc.pick([True, False]):
        counts[1 - b] = 0  # a species without atoms
    species = BLOCKS[:blocks] if names else None
    full = blocks == 1 and kind == "one"
    selective = vc.pick(SELECTIVE if full else SELECTIVE[:2]) if blocks < 3 else None
    h = head(T, scale, cell, species, counts, selective, vc.pick(MODES[mode]) if full else MODES[mode][0])
    g = index(vc, "g", counts[b])
    f = [z3.Function(f"r_{x}", z3.IntSort(), z3.RealSort()) for x in "xyz"]
    tail = ["T", "F", "T"] if selective else []
    total = sum(counts)

    def row(i):
        return Row([T.token(SReal(u(i))) for u in f] + tail)

    k = len(h)

    def at(i):
        t = z3.simplify(i)
        if z3.is_int_value(t) and t.as_long() < k:
            return h[t.as_long()]
        if not ctx().lra_unsat(t < k):
            raise Unsupported("a line that is one of the head or not")
        return row(z3.simplify(t - k))

    lines = SymSeq(zint(total + k), at, name="lines")
    off = sum(counts[:b]) if b else 0
    b2 = b if names else vc.pick(range(blocks))
    h2 = g if names else index(vc, "h", counts[b2])
    off2 = sum(counts[:b2]) if b2 else 0
    ghosts(vc, *([g] if names else [g, h2]))
    lines._ghosts = lambda: [zint(k + off) + zint(g), zint(k + off2) + zint(h2)] + [zint(k) + w for w in seq.wilds()]
    r = vc.call(L.load("wulfric.io._vasp").load_poscar, Lines(lines))
    c2, at2, com = ok(vc, r, "the file is read")
    vc.cover("read")
    vc.check(com == "comment line", "comment", say(com))
    scale.check_cell(c2, cell)
    vc.check(sorted(at2) == ["names", "positions"], "keys", say(sorted(at2)))
    vc.prove(length(at2["names"]) == total, "one name per atom")
    vc.prove(length(at2["positions"]) == total, "one position per atom")
    i = off + g
    name = el(at2["names"], i)
    if names:
        vc.check(name == species[b], "species of the file", say(name))
    else:
        vc.check(isinstance(name, str) and (name == el(at2["names"], off2 + h2)) == (b == b2), "without species names atoms have the same name if and only if they are of one block", say(name))
    p = obj(el(at2["positions"], i))
    given = obj([SReal(u(zint(i))) for u in f])
    if mode == "direct":
        vc.prove_eq(p, given, "Direct positions are read as they are")
    else:
        vc.prove_eq(p @ obj(c2), given * scale.s, "Cartesian positions are scaled")


# ------------------------------------------------------------------------------- dump, then load
KINDS = {"species": ["Cr", "Br", "Fe"], "names": ["Cr", "Br", "Fe"]}


def patterns(n):
    """every sequence of n species of three"""
    return ["".join(x) for x in itertools.product("012", repeat=n)]


COMMENTS = ["simple", "two\nlines", "a\r\nb\rc\n", "\nx", "1.0 Direct", "\u0393 \t z"]
DUMPS = [(m, p) for m in ("Direct", "Cartesian") for n in (1, 2, 3) for p in patterns(n)]


@harness(F + "dump_poscar", F + "load_poscar", cases=DUMPS, covers=["read back"], setup=setup)
def round_trip(vc, L, mode, pattern):
    n = len(pattern)
    first = pattern in ("0", "10")
    T = Texts(vc, ("", "   ") if pattern == "10" else ("   ",))
    m = L.load("wulfric.io._vasp")
    cell = vc.matrix("cell")
    vc.assume(det3(cell) != 0)
    pos = [vc.vector(f"p{i}") for i in range(n)]
    kind = vc.pick(["species", "names"]) if n < 3 else "species"
    want = [KINDS[kind][int(x)] for x in pattern]
    as_list = vc.pick([True, False]) if n < 3 else True
    atoms = {"positions": [p.copy() for p in pos] if as_list else obj([list(p) for p in pos])}
    atoms[kind] = list(want) if kind == "species" else [f"{x}{i + 1}" for i, x in enumerate(want)]
    decimals = vc.int("decimals")
    vc.assume(decimals >= 0)
    kw = dict(decimals=decimals, mode=mode)
    if vc.pick([True, False]) if pattern == "10" else False:
        del kw["decimals"]
        decimals = 8
    if mode == "Direct" and pattern == "10" and vc.pick([True, False]):
        del kw["mode"]
    comment = vc.pick(COMMENTS + [None]) if pattern == "0" else "a\nb"
    if comment is not None:
        kw["comment"] = comment
    target = vc.pick(["file", "name", "folder"]) if first else "file"
    keep = {k: list(v) for k, v in atoms.items()}
    given = cell.copy()
    disk = Disk(folders=["some"])
    f = File()
    to = {"file": f, "name": "some.poscar", "folder": os.path.join("some", "POSCAR")}[target]
    ok(vc, vc.call(m.dump_poscar, given, atoms, to, **kw), "the structure is written")
    vc.check(same(given, cell) and all(list(v) == keep[k] if k != "positions" else all(same(x, y) for x, y in zip(v, pos)) and len(v) == n for k, v in atoms.items()) and set(atoms) == set(keep), "the input is not modified")
    source = {"file": lambda: File(f.getvalue()), "name": lambda: "some.poscar", "folder": lambda: "some"}[target]()
    text = (f if target == "file" else disk.files[to]).getvalue()
    rows = [[T.c.tokens.get(x) for x in l.split()] for l in text.split("\n")[2:5]]
    if [len(x) for x in rows] == [3, 3, 3] and None not in sum(rows, []):
        vc.assume(det3(rows) != 0)  # the cell does not become singular by the rounding
    r = vc.call(m.load_poscar, source)
    c2, at2, com = ok(vc, r, "the file is read")
    vc.cover("read back")
    h = T.unit(decimals)
    c2 = obj(c2)

    def near(x, y, what):
        """|x - y| <= h, x read from the file, y given"""
        e = zreal(x)
        for a, b in T.log:
            if z3.eq(e, zreal(b)) or ctx().ring.equal(e, zreal(b)):
                if ctx().ring.equal(zreal(a), zreal(y)):
                    vc.prove_eq(x, b, what + " (number read)")
                    vc.prove_eq(a, y, what + " (number written)")
                    vc.prove(And(b - a <= h, a - b <= h), what)
                    return
        vc.prove(And(x - y <= h, y - x <= h), what)

    vc.check(c2.shape == (3, 3), "shape of the cell", say(c2.shape))
    for i in range(3):
        for j in range(3):
            near(c2[i, j], cell[i, j], "the cell to the written precision")
    names = list(at2["names"])
    vc.check(sorted(at2) == ["names", "positions"], "keys", say(sorted(at2)))
    vc.check(sorted(names) == sorted(want), "same species", say(names))
    groups = list(dict.fromkeys(names))
    vc.check(names == [x for x in groups for _ in range(names.count(x))], "atoms are grouped by species", say(names))
    order = [i for x in groups for i in range(n) if want[i] == x]
    P = at2["positions"]
    vc.check(len(P) == n, "one position per atom")
    for k, i in enumerate(order):
        p = obj(P[k])
        q = pos[i]
        if mode == "Cartesian":
            p, q = p @ c2, q @ cell
        for j in range(3):
            near(p[j], q[j], f"positions to the written precision, in the order of the species ({mode})")
    if comment is None:
        vc.check(isinstance(com, str) and len(com.splitlines()) == 1, "the default comment is one line", say(com))
    else:
        vc.check(com.split() == comment.split() and len(com.split("\n")) == 1, "the comment on one line", say(com))
        vc.check(com == comment.replace("\r", " ").replace("\n", " ").strip(), "the comment is kept", say(com))


@harness(F + "dump_poscar", F + "load_poscar", covers=["refused"], setup=setup)
def refused(vc, L):
    m = L.load("wulfric.io._vasp")
    T = Texts(vc)
    cell = vc.matrix("cell")
    vc.assume(det3(cell) != 0)
    what = vc.pick(["mode", "species", "missing", "scale2", "scale4", "negative"])
    Disk()
    f = File()
    atoms = {"positions": [vc.vector("p0")], "species": ["Cr"]}
    if what == "mode":
        r = vc.call(m.dump_poscar, cell, atoms, f, mode=vc.pick(["direct", "", "Fractional", "cartesian"]))
    elif what == "species":
        r = vc.call(m.dump_poscar, cell, {"positions": atoms["positions"], "names": ["??"]}, f)
    elif what == "missing":
        r = vc.call(m.load_poscar, "missing")
    else:
        s = vc.reals("s1 s2 s3 s4")[: {"scale2": 2, "scale4": 4}.get(what, 3)]
        if what == "negative":
            vc.assume(Or([x <= 0 for x in s]))
        lines = ["c", " ".join(T.token(x) for x in s)] + [" ".join(T.token(x) for x in v) for v in cell] + ["Cr", "1", "Direct", "0 0 0"]
        r = vc.call(m.load_poscar, File("\n".join(lines) + "\n"))
    kind = FileNotFoundError if what == "missing" else ValueError
    vc.check(r[0] == "raise" and isinstance(r[1], kind), f"refused: {what}", say(r[1]))
    if what in ("mode", "species"):
        vc.check(f.getvalue() == "" or r[0] == "ok", "nothing is written for what is refused", say(f.getvalue()))
    vc.cover("refused")
