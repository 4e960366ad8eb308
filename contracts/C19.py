"""Lattice points for any range; Wigner-Seitz cell with scipy's Voronoi diagram by its interface"""
import itertools
import random
import types

import numpy

from contracts.common import *
from contracts.seqs import *
from pyvc.grid import SymGrid

V = "wulfric.cell._voronoi."
POINTS = V + "get_lattice_points"
GRID = {}


@harness(POINTS, cases=[(r, f) for r in (None, True, False) for f in (None, True, False)], covers=["points"])
def points(vc, L, relative, flat):
    """any cell, any three non-negative integers; None: default of the argument"""
    cell = vc.matrix("cell")
    keep = cell.copy()
    n = [count(vc, x, 0) for x in ("n1", "n2", "n3")]
    kw = {k: v for k, v in (("relative", relative), ("flat", flat)) if v is not None}
    kind = vc.pick([tuple, list])
    st, r = vc.call(L.get(POINTS), cell, range=kind(n), **kw)
    vc.check(st == "ok", "no exception", say(r))
    if st != "ok":
        return
    vc.cover("points")
    vc.check(isinstance(r, SymGrid), "an array", say(r))
    want = [2 * x + 1 for x in n]
    dims = [s for d in r.dims for s in d]
    vc.check(len(dims) == 4 and dims[3] == 3, "three components", say(dims))
    for d, w in zip(dims, want):
        vc.prove(d == w, "2 n + 1 points along each vector, in the order of the vectors")
    if flat is False:
        vc.check([len(d) for d in r.dims] == [1, 1, 1, 1], "a grid", say(r.dims))
    else:
        vc.check([len(d) for d in r.dims] == [3, 1], "row-major order in a flat array", say(r.dims))
    idx = [index(vc, x, w) for x, w in zip("ijk", want)]
    comb = [i - x for i, x in zip(idx, n)]
    got = obj([r.at(*[zint(i) for i in idx], c) for c in range(3)])
    if relative is True:
        vc.prove_eq(got, obj(comb), "the point is the integer combination of its index: each once, in row-major order")
        vc.check(all(znum(x).is_int() for x in got), "integers")
    else:
        vc.prove_eq(got, obj(comb) @ cell, "the point is i a1 + j a2 + k a3 of its index: each once, in row-major order")
    vc.check(same(cell, keep), "the cell is not modified")


@harness(POINTS, covers=["default"])
def default_range(vc, L):
    cell = vc.matrix("cell")
    vc.cover("default")
    r = L.get(POINTS)(cell)
    c = [obj(x) @ cell for x in itertools.product((-1, 0, 1), repeat=3)]
    vc.prove_eq(obj(r), obj(c), "points of the range (1, 1, 1)")
    r = L.get(POINTS)(cell, (1, 1, 1), True)
    vc.check(numpy.array_equal(numpy.array(r), numpy.array(list(itertools.product((-1, 0, 1), repeat=3)))), "relative points of the range (1, 1, 1)")
    L3 = [[cell[i][j] for j in range(3)] for i in range(3)]
    vc.prove_eq(obj(L.get(POINTS)(L3)), obj(c), "points of a cell given as nested lists")


# ------------------------------------------------------------------------------------ Wigner-Seitz
LATTICE = dict(
    box=[[1, 0, 0], [0, 1.3, 0], [0, 0, 1.7]],
    hexagonal_prism=[[1, 0, 0], [0.4, 1.1, 0], [0, 0, 1.7]],
    rhombic_dodecahedron=[[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    elongated_dodecahedron=[[-0.5, 0.5, 1.5], [0.5, -0.5, 1.5], [0.5, 0.5, -1.5]],
    truncated_octahedron=[[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
)
FACES = dict(box=6, hexagonal_prism=8, rhombic_dodecahedron=12, elongated_dodecahedron=12, truncated_octahedron=14)


def diagram(kind):
    """faces of the Wigner-Seitz cell (one of the five parallelohedra of Fedorov) as lists of vertices"""
    from scipy.spatial import Voronoi

    p = numpy.array(list(itertools.product(range(-3, 4), repeat=3))) @ numpy.array(LATTICE[kind], dtype=float)
    o = len(p) // 2
    v = Voronoi(p)
    faces = [list(rv) for rp, rv in zip(v.ridge_points, v.ridge_vertices) if o in rp]
    used = sorted({x for f in faces for x in f})
    ren = {x: i for i, x in enumerate(used)}
    return [[ren[x] for x in f] for f in faces]


class Diagram:
    """scipy.spatial.Voronoi by its interface"""

    def __init__(self, vc, kind, seed):
        self.vc, self.rng = vc, random.Random(seed)
        self.faces = diagram(kind)
        self.n_v = 1 + max(x for f in self.faces for x in f)
        extra = 7
        names = list(range(self.n_v + extra))
        self.rng.shuffle(names)
        self.name = names[: self.n_v]  # index of vertex i of the cell in the table of vertices
        self.other = names[self.n_v :]
        self.vertices = numpy.array([[vc.fresh("v") for _ in range(3)] for _ in names], dtype=object)
        self.edges = {frozenset((f[i - 1], f[i])) for f in self.faces for i in range(len(f))}
        self.called = 0

    def __call__(self, points, **k):
        vc = self.vc
        self.called += 1
        p = points
        if isinstance(p, Lattice):
            vc.check(p.flat and not p.relative, "points of the diagram are absolute, as a list")
            vc.check(same(p.cell, self.cell), "points of the diagram are those of the lattice")
            vc.check(all(isinstance(x, int) and x >= 1 for x in p.range), "neighbours in every direction", say(p.range))
            n = [2 * x + 1 for x in p.range]
            origin, total = ((n[0] // 2) * n[1] + n[1] // 2) * n[2] + n[2] // 2, n[0] * n[1] * n[2]
        else:
            raise Unsupported("points that are not made by get_lattice_points")
        # ridges: those of the origin (in any order, orientation and start), others, others without end
        rp, rv = [], []
        others = [x for x in self.rng.sample(range(total), 60) if x != origin]
        for f in self.faces:
            g = [self.name[x] for x in f]
            i = self.rng.randrange(len(g))
            g = g[i:] + g[:i]
            if self.rng.random() < 0.5:
                g.reverse()
            pair = [origin, others.pop()]
            if self.rng.random() < 0.5:
                pair.reverse()
            rp.append(pair)
            rv.append(g)
        for _ in range(12):
            g = self.rng.sample(self.other, 3) + [self.rng.choice(self.name)]
            rp.append([others.pop(), others.pop()])
            rv.append(g)
        for _ in range(5):
            rp.append([others.pop(), others.pop()])
            rv.append([-1] + self.rng.sample(self.name + self.other, 3))
        order = list(range(len(rp)))
        self.rng.shuffle(order)
        out = types.SimpleNamespace()
        out.ridge_points = numpy.array([rp[i] for i in order])
        out.ridge_vertices = [rv[i] for i in order]
        out.vertices = self.vertices.copy()
        return out


class Lattice(sym.Sym):
    """result of get_lattice_points"""

    def __init__(self, cell, range=(1, 1, 1), relative=False, flat=True):
        self.cell, self.range, self.relative, self.flat = numpy.array(cell, dtype=object), tuple(range), relative, flat

    def isinstance(self, t):
        return t is numpy.ndarray

    def __repr__(self):
        return "<lattice points>"


@harness(V + "get_wigner_seitz_cell", V + "get_brillouin_zone", V + "_get_voronoi_cell", covers=["cell"],
         assumed=["get_lattice_points (proved in points)", "get_reciprocal (C04)", "scipy.spatial.Voronoi (external): ridges of the point at the origin are the faces of its cell"],
         cases=[(k, z, s) for k in LATTICE for z in ("get_wigner_seitz_cell", "get_brillouin_zone") for s in range(2)])
def voronoi_cell(vc, L, kind, which, seed):
    cell = vc.matrix("cell")
    keep = cell.copy()
    d = Diagram(vc, kind, seed)
    L.stub(POINTS, Lattice)
    recip = vc.matrix("reciprocal")
    for m in (V, B):
        L.stub(m + "get_reciprocal", lambda cell: recip.copy() if vc.check(same(cell, keep), "reciprocal of the given cell") else None)
    d.cell = keep if which == "get_wigner_seitz_cell" else recip
    GRID["diagram"] = d
    L.scipy = types.SimpleNamespace(Voronoi=lambda *a, **k: GRID["diagram"](*a, **k), __version__="1")
    L.scipy.spatial = L.scipy
    st, r = vc.call(L.get(V + which), cell)
    vc.check(st == "ok", "no exception", say(r))
    if st != "ok":
        return
    vc.cover("cell")
    vc.check(d.called == 1, "one Voronoi diagram")
    v, e = r
    v = numpy.array(v, dtype=object)
    e = numpy.array(e)
    vc.check(v.shape == (d.n_v, 3), "the vertices of the cell of the origin", str(v.shape))
    vc.check(e.shape == (len(d.edges), 2) and e.dtype.kind == "i", "one row for each edge", str(e.shape))
    which_v = []
    for x in v:
        m = [i for i in range(d.n_v) if same(x, d.vertices[d.name[i]])]
        which_v.append(m[0] if m else None)
    vc.check(sorted(map(str, which_v)) == sorted(map(str, range(d.n_v))), "each vertex of the cell of the origin exactly once", str(which_v))
    vc.check(e.size and e.min() >= 0 and e.max() < len(v), "edges join existing vertices")
    got = [frozenset((which_v[a], which_v[b])) for a, b in e.tolist()]
    vc.check(len(set(got)) == len(got) and set(got) == d.edges, "edges are those of the faces of the cell of the origin, each once")
    vc.check(len(v) - len(e) + FACES[kind] == 2, "Euler's relation")
    vc.check(same(cell, keep), "the cell is not modified")
