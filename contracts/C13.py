"""Kpoints: every operation from every state of small shape keeps the points consistent.

Symbolic: coordinates, reciprocal cell, number n of points between the high-symmetry points.
Enumerated: names (up to four) and the shape of the path."""
import copy

import numpy

from contracts.common import *
from contracts.seqs import *

K = "wulfric._kpoints_class.Kpoints"
M = "wulfric._kpoints_class."
SHAPES = ["", "A-B", "A-A", "A-B-C", "A-B-A", "A-B|C-D", "A-B|B-C", "B-A-C|A-D|D-B", "A-B-C-D|B-D|C-A-C"]
NAMES = ["A", "B", "C", "D"]


def patterns(n, k=0):
    """all ways to repeat names in a sequence of n points, up to renaming"""
    if n == 0:
        return [[]]
    return [[x] + r for x in range(k + 1) for r in patterns(n - 1, max(k, x + 1))]


def all_shapes():
    """every path of at most two subpaths with at most five points, up to the names"""
    out = []
    for lens in [(2,), (3,), (4,), (2, 2), (2, 3), (3, 2)]:
        for p in patterns(sum(lens)):
            names = [FIVE[i] for i in p]
            parts, k = [], 0
            for m in lens:
                parts.append("-".join(names[k : k + m]))
                k += m
            out.append("|".join(parts))
    return out


FIVE = NAMES + ["E"]


def parse(text):
    return [s.split("-") for s in text.split("|")] if text else []


class Kp:
    """A Kpoints object made by its constructor, and what it has to be"""

    def __init__(self, vc, L, names, path, given_path=None, default_n=False):
        self.vc, self.L = vc, L
        self.cls = L.load("wulfric._kpoints_class").Kpoints
        self.rcell = vc.matrix("rcell")
        vc.assume(det3(self.rcell) != 0)
        self.names = list(names)
        self.coords = {x: obj([vc.fresh(f"{x}{i}_") for i in range(3)]) for x in names}
        self.labels = {x: f"$l_{x}$" for x in names}
        self.path = parse(path) if isinstance(path, str) else path
        self.n = vc.int("n")
        vc.assume(self.n >= 0)
        self.k = None

    def make(self, **over):
        kw = dict(coordinates=[self.coords[x].copy() for x in self.names], names=list(self.names), labels=[self.labels[x] for x in self.names], path=[list(s) for s in self.path], n=self.n)
        kw.update(over)
        kw = {a: b for a, b in kw.items() if b is not None}
        st, k = self.vc.call(self.cls, self.rcell.copy(), **kw)
        self.k = k
        return st, k

    def created(self):
        st, k = self.make()
        self.vc.check(st == "ok", "the object is created", say(k))
        if st != "ok":
            raise PathEnd()
        return k

    # ---------------------------------------------------------------- the state
    def check(self, k, what):
        vc = self.vc
        vc.check(list(k.hs_names) == self.names, f"{what}: names", say(k.hs_names))
        vc.check(list(dict(k.hs_coordinates)) == self.names or sorted(k.hs_coordinates) == sorted(self.names), f"{what}: points with coordinates are the points with names", say(sorted(k.hs_coordinates)))
        vc.check(sorted(k.hs_labels) == sorted(self.names), f"{what}: points with labels are the points with names", say(sorted(k.hs_labels)))
        for x in self.names:
            if x in k.hs_coordinates:
                v = k.hs_coordinates[x]
                vc.check(isinstance(v, numpy.ndarray) and v.shape == (3,), f"{what}: coordinates are arrays of three numbers", say(v))
                vc.prove_eq(obj(v) @ self.rcell, self.coords[x] @ self.rcell, f"{what}: coordinates of the point")
            vc.check(k.hs_labels.get(x) == self.labels[x], f"{what}: label of the point", say(k.hs_labels.get(x)))
        p = [list(s) for s in k.path]
        vc.check(p == self.path, f"{what}: path", say(p))
        vc.check(all(len(s) >= 2 and all(x in self.names for x in s) for s in p), f"{what}: every point of the path is defined")
        if is_sym(self.n):
            vc.prove(k.n == self.n, f"{what}: n")
        else:
            vc.check(k.n == self.n, f"{what}: n", say(k.n))
        vc.prove_eq(obj(k.rcell), self.rcell, f"{what}: reciprocal cell")

    # ---------------------------------------------------------------- what is read along the path
    def segments(self):
        return [(x, y) for s in self.path for x, y in zip(s, s[1:])]

    def expected_labels(self):
        out = []
        for i, s in enumerate(self.path):
            if i:
                out[-1] += "|" + self.labels[s[0]]
            else:
                out.append(self.labels[s[0]])
            out += [self.labels[x] for x in s[1:]]
        return out

    def root(self, u, w, label):
        """u == w if both are non-negative and their squares agree"""
        vc = self.vc
        if not vc.prove_eq(obj([u * u]), obj([w * w]), label + " (square)"):
            return False
        vc.prove(u >= 0, label + " (sign)")
        return vc.lemma("equal_squares", lambda a, b: And(a * a == b * b, a >= 0, b >= 0), lambda a, b: a == b, u, w)

    def read(self, k, relative):
        vc = self.vc
        kw = [dict(relative=relative)] + ([{}] if relative is False else [])
        kw = vc.pick(kw) if len(kw) > 1 else kw[0]
        cell = obj(numpy.eye(3).astype(int)) if relative else self.rcell
        seg = self.segments()
        labels = k.labels
        vc.check(list(labels) == self.expected_labels(), "labels along the path, jumps joined as 'X|Y'", say(labels))
        ticks = k.ticks(**kw)
        vc.check(len(ticks) == len(labels) and (not seg or len(ticks) == len(seg) + 1), "labels and ticks have equal length", say(ticks))
        if seg:
            vc.check(k.path_string == "|".join("-".join(s) for s in self.path), "path as text", say(k.path_string))
        dist = []
        from pyvc.npshim import np as shim

        for i, (x, y) in enumerate(seg):
            a, b = self.coords[x] @ cell, self.coords[y] @ cell
            d = shim.linalg.norm(b - a)
            d = d if is_sym(d) else SReal(zreal(d))
            dist.append(d)
            self.root(ticks[i + 1] - ticks[i], d, "a tick is the previous tick and the distance")
            vc.prove(ticks[i + 1] == ticks[i] + d, "a tick is the previous tick and the distance; jumps add nothing")
        if seg:
            vc.prove(SReal(zreal(ticks[0])) == 0, "ticks start at zero")
        P, F = seq.desym(k.points(**kw)), seq.desym(k.flat_points(**kw))
        if not seg:
            vc.check(numpy.shape(P) == (0, 3) and numpy.shape(F) == (0,), "no points without a path", say((numpy.shape(P), numpy.shape(F))))
            return
        m = self.n + 2
        vc.prove(length(P) == m * len(seg), "n + 2 points for each segment")
        vc.prove(length(F) == m * len(seg), "n + 2 flat points for each segment")
        j = index(vc, "j", m)
        t = j / (m - 1)
        before = SReal(z3.RealVal(0))
        for i, (x, y) in enumerate(seg):
            a, b = self.coords[x] @ cell, self.coords[y] @ cell
            vc.prove_eq(obj(el(P, m * i + j)), a + t * (b - a), "points of a segment are evenly spaced between its ends")
            u = el(F, m * i + j)
            self.root(u - before, t * dist[i], "flat point")
            vc.prove(u == before + t * dist[i], "flat points are evenly spaced, the distance along the path")
            e = el(F, m * i + (m - 1))
            self.root(e - before, dist[i], "flat point at the end of a segment")
            vc.prove(e == before + dist[i], "flat point at the end of a segment")
            before = e
            vc.prove(e == ticks[i + 1], "the flat point at a high-symmetry point is the tick")


@harness(M + "Kpoints.labels", M + "Kpoints.ticks", M + "Kpoints.points", M + "Kpoints.flat_points", M + "Kpoints.path_string", cases=[(s, r) for s in SHAPES for r in (True, False)] + [(s, False) for s in all_shapes() if s not in SHAPES], covers=["read"], z3_timeout=30000)
def read(vc, L, shape, relative):
    w = Kp(vc, L, FIVE if shape else NAMES[:2], shape)
    k = w.created()
    vc.cover("read")
    w.read(k, relative)
    w.check(k, "reading")


@harness(M + "Kpoints.__init__", cases=[(n, a, b, p) for n in (0, 1, 2, 3) for a in (True, False) for b in (True, False) for p in ("none", "list", "tuple", "text") if not (p != "none" and n < 2)], covers=["created"])
def create(vc, L, n, names, labels, path):
    w = Kp(vc, L, NAMES[:n], "")
    kind = vc.pick(["list", "array", "none"]) if n == 0 else vc.pick(["list", "array", "lists"])
    coords = [w.coords[x].copy() for x in w.names]
    if kind == "array":
        coords = obj(coords) if n else numpy.zeros((0, 3))
    if kind == "lists":
        coords = [list(x) for x in coords]
    if kind == "none":
        coords = None
    old = list(w.names)
    gn, gl = [f"p{x}" for x in old], [f"l{x}" for x in old]
    w.names = gn if names else [f"K{i + 1}" for i in range(n)]
    want = gl if labels else list(gn) if names else [f"K$_{i + 1}$" for i in range(n)]
    w.coords = {a: w.coords[b] for a, b in zip(w.names, old)}
    w.labels = dict(zip(w.names, want))
    w.path = [list(w.names)] if n >= 2 else []
    over = dict(coordinates=coords, names=list(gn) if names else None, labels=list(gl) if labels else None, path=None)
    if path != "none":
        w.path = [[w.names[1], w.names[0]], list(w.names)]
        over["path"] = {"list": [list(s) for s in w.path], "tuple": tuple(tuple(s) for s in w.path), "text": "|".join("-".join(s) for s in w.path)}[path]
    given = {a: (b, copy.copy(b), [list(s) for s in b] if a == "path" and isinstance(b, list) else None) for a, b in over.items() if isinstance(b, list)}
    st, k = w.make(**over)
    vc.check(st == "ok", "the object is created", say(k))
    if st != "ok":
        return
    vc.cover("created")
    w.check(k, "creating")
    # what was given is neither modified nor shared
    for a, (b, c, d) in given.items():
        vc.check(len(b) == len(c) and all(x is y for x, y in zip(b, c)) and (d is None or [list(s) for s in b] == d), f"{a} are not modified")
        vc.check(k.hs_names is not b and k.path is not b and not any(s is x for s in k.path for x in b if isinstance(x, list)), f"{a} are not shared with the object")
    vc.check(all(s is not k.hs_names for s in k.path), "the path does not share the list of names")
    vc.check(not any(k.hs_coordinates[x] is c or (isinstance(c, numpy.ndarray) and numpy.shares_memory(k.hs_coordinates[x], c)) for x in w.names for c in (list(coords) if coords is not None else [])), "coordinates are not shared with the object")


@harness(M + "Kpoints.__init__", covers=["refused"])
def create_refused(vc, L):
    w = Kp(vc, L, NAMES[:2], "A-B")
    why = vc.pick([dict(names=["A"]), dict(names=["A", "B", "C"]), dict(labels=["A"]), dict(labels=["a", "b", "c"]), dict(names=["A", "A"], path=None), dict(path="A-Z"), dict(path="A"), dict(path=[["A"]]), dict(path=[["A", "B"], []]), dict(path=[["A", "Z"]]), dict(names=["A", "A"], path=[["A", "A"]]), dict(path=[["A", "B"], 5])])
    why = dict(why)
    if why.get("path", 0) is None:
        w.path = []
    st, k = w.make(**why)
    vc.cover("refused")
    vc.check(st == "raise" and isinstance(k, ValueError), f"refused with ValueError: {why}", say(k))


def unchanged(w, f, label, kinds=(ValueError,)):
    """the operation is refused, the object is what it was"""
    st, e = w.vc.call(f)
    w.vc.check(st == "raise" and isinstance(e, kinds), f"{label}: refused", say(e))
    w.check(w.k, f"{label}: refused, unchanged")


@harness(M + "Kpoints.add_hs_point", cases=[(s, n) for s, n in (("", 0), ("", 1), ("A-B", 2), ("B-A-C|A-D|D-B", 4))], covers=["added"])
def add(vc, L, shape, n):
    w = Kp(vc, L, NAMES[:n], shape)
    k = w.created()
    new = vc.pick(["E", "K1", "a"] + NAMES[:n])
    label = vc.pick([None, "$l_E$"])
    rel = vc.pick([None, True, False])
    c = obj([vc.fresh("c") for _ in range(3)])
    keep = c.copy()
    arg = vc.pick([c, list(c)])
    kw = {} if rel is None else dict(relative=rel)
    if label is not None:
        kw["label"] = label
    if new in w.names:
        unchanged(w, lambda: k.add_hs_point(new, arg, **kw), "adding a point that is defined")
        return
    vc.cover("added")
    st, r = vc.call(k.add_hs_point, new, arg, **kw)
    vc.check(st == "ok", "the point is added", say(r))
    if st != "ok":
        return
    w.names.append(new)
    w.labels[new] = new if label is None else label
    if rel is False:
        x = vc.fresh_array((3,), "x")
        # the relative coordinates are those x with x @ rcell = c
        w.coords[new] = obj(k.hs_coordinates[new])
        vc.prove_eq(w.coords[new] @ w.rcell, keep, "absolute coordinates of the added point")
    else:
        w.coords[new] = keep
    w.check(k, "adding")
    vc.check(same(c, keep), "the given coordinates are not modified")
    vc.check(not numpy.shares_memory(k.hs_coordinates[new], c), "the given coordinates are not shared")


def without(path, name):
    out = []
    for s in path:
        cur = []
        for x in s:
            if x == name:
                out.append(cur)
                cur = []
            else:
                cur.append(x)
        out.append(cur)
    return [s for s in out if len(s) >= 2]


@harness(M + "Kpoints.remove_hs_point", cases=[(s,) for s in SHAPES + ["A-B-C-D", "C-D-A-C-D|A-B", "A-B-A-C-D-A"]], covers=["removed", "undefined"])
def remove(vc, L, shape):
    w = Kp(vc, L, NAMES, shape)
    k = w.created()
    name = vc.pick(NAMES + ["E"])
    st, r = vc.call(k.remove_hs_point, name)
    vc.check(st == "ok", "no exception", say(r))
    vc.cover("removed" if name in NAMES else "undefined")
    if name in w.names:
        w.names.remove(name)
        del w.coords[name], w.labels[name]
        w.path = without(w.path, name)
    w.check(k, "removing")


@harness(M + "Kpoints.path", M + "Kpoints.n", cases=[(s,) for s in ("", "A-B", "B-A-C|A-D|D-B")], covers=["path", "n", "refused"])
def assign(vc, L, shape):
    w = Kp(vc, L, NAMES, shape)
    k = w.created()
    what = vc.pick(["path", "bad path", "n", "bad n"])
    if what == "path":
        new = vc.pick(["A-B", "D-C-B|A-D", "C-C", "A-B-C-D-A|B-D|D-B"])
        lists = parse(new)
        kind = vc.pick(["text", "list", "tuple"])
        arg = {"text": new, "list": [list(s) for s in lists], "tuple": tuple(tuple(s) for s in lists)}[kind]
        st, r = vc.call(setattr, k, "path", arg)
        vc.check(st == "ok", "the path is set", say(r))
        w.path = lists
        w.check(k, "setting the path")
        if kind == "list":
            vc.check([list(s) for s in arg] == lists and k.path is not arg and not any(a is b for a in k.path for b in arg), "the given path is neither modified nor shared")
        vc.cover("path")
    elif what == "bad path":
        bad = vc.pick(["A", "A-Z", "A-B|C", "A-B|C-Z", [["A", "B"], ["C"]], [["A", "B"], ["C", "Z"]], [["A"]], [["A", "B"], []], (("A", "Z"),), "Z-A", [["A", "B"], 3]])
        unchanged(w, lambda: setattr(k, "path", bad), "an undefined path")
        vc.cover("refused")
    elif what == "n":
        n = vc.int("new_n")
        vc.assume(n >= 0)
        n = vc.pick([n, 0, 7])
        st, r = vc.call(setattr, k, "n", n)
        vc.check(st == "ok", "n is set", say(r))
        w.n = n
        w.check(k, "setting n")
        vc.cover("n")
    else:
        bad = vc.pick([2.5, "3", None, [4], 1e2, (1,)])
        unchanged(w, lambda: setattr(k, "n", bad), "n that is not an integer")
        vc.cover("refused")


AGAIN = ("move", "label", "n", "path", "order", "relative", "copy", "same names")


@harness(M + "Kpoints.add_hs_point", M + "Kpoints.remove_hs_point", M + "Kpoints.path", M + "Kpoints.n", M + "Kpoints.ticks", M + "Kpoints.points", M + "Kpoints.flat_points", M + "Kpoints.labels",
         cases=[(s, c) for s in ("A-B-C", "A-B|C-A") for c in AGAIN], covers=["again"], z3_timeout=30000)
def again(vc, L, shape, change):
    """what is read after a change is the changed state, whatever was read before"""
    w = Kp(vc, L, NAMES, shape)
    k = w.created()
    relative = False
    # (that what is read here is right is proved by `read`)
    for r in (True, False) if change != "relative" else (False,):
        k.ticks(relative=r), k.points(relative=r), k.flat_points(relative=r)
    k.labels, k.path_string
    if change in ("move", "label"):
        # removed, and added again with other coordinates (or another label); the same path is set again
        x = "A" if shape == "A-B-C" else "B"
        vc.check(vc.call(k.remove_hs_point, x)[0] == "ok", "no exception")
        if change == "move":
            w.coords[x] = obj([vc.fresh("moved") for _ in range(3)])
        else:
            w.labels[x] = "other"
        st, r = vc.call(k.add_hs_point, x, w.coords[x].copy(), label=w.labels[x])
        vc.check(st == "ok", "no exception", say(r))
        w.names = [n for n in w.names if n != x] + [x]
        k.path = vc.pick([shape, [list(s) for s in w.path]])
    elif change == "n":
        n = vc.int("other_n")
        vc.assume(n >= 0)
        k.n = w.n = n
    elif change == "path":
        for new in (["D-B-A", shape], ["C-B-A"], ["A-D|C-D"])[vc.pick([0, 1, 2])]:
            k.path = new
            w.path = parse(new)
    elif change == "order":
        # the same segments, in another order
        w.path = [s[::-1] for s in w.path[::-1]]
        k.path = [list(s) for s in w.path]
    elif change == "relative":
        relative = True
    elif change == "copy":
        c = k.copy()
        x = "B"
        c.remove_hs_point(x)
        c.add_hs_point(x, obj([vc.fresh("moved") for _ in range(3)]))
        c.path = shape
        c.ticks(), c.points(), c.flat_points(), c.labels
    else:
        # all the points are removed and others of the same names are added
        for x in list(w.names):
            k.remove_hs_point(x)
        w.coords = {x: obj([vc.fresh("moved") for _ in range(3)]) for x in w.names}
        for x in w.names:
            k.add_hs_point(x, w.coords[x].copy(), label=w.labels[x])
        k.path = shape
    vc.cover("again")
    w.read(k, relative)
    w.check(k, "reading again")


@harness(M + "Kpoints.copy", cases=[(s,) for s in ("", "A-B", "B-A-C|A-D|D-B")], covers=["copied"])
def copied(vc, L, shape):
    w = Kp(vc, L, NAMES, shape)
    k = w.created()
    st, c = vc.call(k.copy)
    vc.check(st == "ok" and type(c) is type(k) and c is not k, "a copy", say(c))
    if st != "ok":
        return
    vc.cover("copied")
    w.check(k, "copying (the object)")
    w.check(c, "copying (the copy)")
    one, two = vc.pick([(k, c), (c, k)])
    # whatever is done to one of them in place
    two.add_hs_point("E", [1, 2, 3])
    for x in list(two.hs_coordinates):
        two.hs_coordinates[x] += 1
    for x in list(two.hs_labels):
        two.hs_labels[x] = "changed"
    for s in two.path:
        s[0] = "changed"
    two.path.append(["q", "r"])
    two.hs_names.append("q")
    two.rcell[0][0] = 5
    two.n = 12345
    w.check(one, "changing the other one")
