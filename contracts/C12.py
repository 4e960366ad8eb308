"""get_path_as_list, get_path_as_string: any number of subpaths with any number of points of any name"""
from contracts.common import *
from contracts.seqs import *

P = "wulfric.kpoints._path_and_points."
TO_LIST, TO_TEXT = P + "get_path_as_list", P + "get_path_as_string"


class Path:
    """m >= 1 subpaths, n(s) >= least points in subpath s, names without '-' and '|'.  Every text is
    '|'.join of '-'.join of such names (least = 1)."""

    def __init__(self, vc, least, kind=list):
        self.vc, self.kind = vc, kind
        self.m = count(vc, "m")
        self.name = z3.Function("name", z3.IntSort(), z3.IntSort(), z3.StringSort())
        self.len = z3.Function("points", z3.IntSort(), z3.IntSort())
        self.least = least
        self.s = index(vc, "s", self.m)
        ctx().fact(zbool(SReal(self.len(zint(self.s))) >= least))
        self.t = index(vc, "t", SReal(self.len(zint(self.s))))
        ghosts(vc, self.s)
        self.subpaths = {}

    def at(self, s, t):
        return seq.Name(self.name(s, t), "-|")

    def subpath(self, s):
        k = z3.simplify(s).sexpr()
        if k not in self.subpaths:
            ctx().fact(z3.Implies(z3.And(s >= 0, s < zint(self.m)), self.len(s) >= self.least))
            self.subpaths[k] = s, SymSeq(self.len(s), lambda t: self.at(s, t), kind=self.kind, name="subpath", ghosts=lambda: [zint(self.t)])
        return self.subpaths[k][1]

    def list(self):
        return SymSeq(zint(self.m), self.subpath, kind=self.kind, name="path")

    def text(self):
        return seq.JoinStr("|", SymSeq(zint(self.m), lambda s: seq.JoinStr("-", self.subpath(s)), name="text"))

    def is_list(self, r):
        """r is the path as a list of lists"""
        vc = self.vc
        r = seq.desym(r)
        vc.check(isinstance(r, (SymSeq, list)), "the path is a list")
        vc.prove(length(r) == self.m, "as many subpaths, in the same order")
        x = seq.desym(el(r, self.s))
        vc.check(isinstance(x, list) or (isinstance(x, SymSeq) and x.kind is list), "every subpath is a list")
        vc.prove(length(x) == SReal(self.len(zint(self.s))), "as many points in the subpath")
        y = el(x, self.t)
        vc.prove(y == self.at(zint(self.s), zint(self.t)), "every point of every subpath, in the same order")

    def is_text(self, r):
        vc = self.vc
        vc.check(isinstance(r, seq.JoinStr) and r.sep == "|", "subpaths are joined with '|'", say(r))
        vc.prove(length(r.parts) == self.m, "as many subpaths, in the same order")
        x = el(r.parts, self.s)
        vc.check(isinstance(x, seq.JoinStr) and x.sep == "-", "points are joined with '-'", say(x))
        vc.prove(length(x.parts) == SReal(self.len(zint(self.s))), "as many points in the subpath")
        vc.prove(el(x.parts, self.t) == self.at(zint(self.s), zint(self.t)), "every point of every subpath, in the same order")


@harness(TO_LIST, TO_TEXT, cases=[list, tuple], covers=["text", "list"])
def from_list(vc, L, kind):
    p = Path(vc, 2, kind)
    given = p.list()
    text = L.get(TO_TEXT)(given)
    p.is_text(text)
    vc.cover("text")
    vc.check(not given.changed(), "the path is not modified")
    back = L.get(TO_LIST)(text)
    p.is_list(back)
    vc.cover("list")
    p.is_text(L.get(TO_TEXT)(back))


@harness(TO_LIST, covers=["list", "refused"])
def from_text(vc, L):
    """any text: refused if and only if some subpath has one point"""
    p = Path(vc, 1)
    st, r = vc.call(L.get(TO_LIST), p.text())
    if st == "ok":
        vc.cover("list")
        vc.prove(SReal(p.len(zint(p.s))) >= 2, "accepted only if every subpath has two points or more")
        p.is_list(r)
        p.is_text(L.get(TO_TEXT)(r))
    else:
        vc.cover("refused")
        vc.check(isinstance(r, ValueError), "refused with ValueError", say(r))
        short = [z3.And(s >= 0, s < zint(p.m), p.len(s) == 1) for s, _ in p.subpaths.values()]
        vc.prove(SBool(z3.Or(short)), "refused only if some subpath has one point")


@harness(TO_LIST, covers=["refused"])
def not_text(vc, L):
    k = vc.choose(9)
    x = [None, 1, 2.5, True, b"A-B", (), {}, None, None][k]
    if k == 7:
        x = SymAny("object", z3.IntVal(0))
        vc.assume(Not(SBool(x.is_str)))
    if k == 8:
        x = Path(vc, 2).list()
    st, r = vc.call(L.get(TO_LIST), x)
    vc.check(st == "raise" and isinstance(r, ValueError), "anything that is not text is refused with ValueError", say(r))
    vc.cover("refused")
