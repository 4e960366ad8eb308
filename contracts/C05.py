"""get_niggli(implementation="wulfric"): the steps by contracts, the loop by an invariant"""
from contracts.common import *
from pyvc.lemmas import dot, cross

N = "wulfric.cell._niggli."
F = N + "get_niggli"


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def metric6(A, B, C, xi, eta, zeta):
    """metric tensor of the six parameters"""
    return [[A, zeta / 2, eta / 2], [zeta / 2, B, xi / 2], [eta / 2, xi / 2, C]]


def six(g):
    return [g[0][0], g[1][1], g[2][2], 2 * g[1][2], 2 * g[0][2], 2 * g[0][1]]


def changed(m, p):
    """parameters of the vectors combined with the columns of m"""
    g = metric6(*p)
    q = [[sum(m[k][i] * g[k][l] * m[l][j] for k in range(3) for l in range(3)) for j in range(3)] for i in range(3)]
    return six(q)


def gt(x, y, eps):
    return x > y + eps


def eq(x, y, eps):
    return And(x <= y + eps, x >= y - eps)


def conditions(k, p, eps):
    """the condition under which step k acts (Krivy & Gruber 1976, Grosse-Kunstleve et al. 2004)"""
    A, B, C, xi, eta, zeta = p
    ab = lambda x: abs(x)
    if k == 1:
        return Or(gt(A, B, eps), And(eq(A, B, eps), gt(ab(xi), ab(eta), eps)))
    if k == 2:
        return Or(gt(B, C, eps), And(eq(B, C, eps), gt(ab(eta), ab(zeta), eps)))
    if k in (3, 4):
        pos = [x > eps for x in p[3:]]
        neg = [x < -eps for x in p[3:]]
        one = lambda i, j, k: And(pos[i], neg[j], neg[k])
        c = Or(And(pos), one(0, 1, 2), one(1, 0, 2), one(2, 0, 1))
        return c if k == 3 else Not(c)
    if k == 5:
        return Or(gt(ab(xi), B, eps), And(eq(xi, B, eps), gt(zeta, 2 * eta, eps)), And(eq(xi, -B, eps), zeta < -eps))
    if k == 6:
        return Or(gt(ab(eta), A, eps), And(eq(eta, A, eps), gt(zeta, 2 * xi, eps)), And(eq(eta, -A, eps), zeta < -eps))
    if k == 7:
        return Or(gt(ab(zeta), A, eps), And(eq(zeta, A, eps), gt(eta, 2 * xi, eps)), And(eq(zeta, -A, eps), eta < -eps))
    s = xi + eta + zeta + A + B
    return Or(s < -eps, And(eq(s, 0, eps), gt(2 * (A + eta) + zeta, 0, eps)))


def pre(p, eps):
    """squared lengths exceed the tolerance"""
    return And([x > eps for x in p[:3]])


def clean(p, eps):
    """off-diagonal parameters within the tolerance of zero are zero"""
    return And([Or(x > eps, x < -eps, x == 0) for x in p[3:]])


def post(k, p, q, cond, eps):
    """clauses about the parameters after step k, besides that they are those of the new vectors"""
    out = [("acts exactly under its condition", Iff(cond, conditions(k, p, eps))),
           ("nothing changes if it does not act", Or(cond, And([x == y for x, y in zip(p, q)])))]
    same_ = lambda idx: And([q[i] == p[i] for i in idx])
    absx = And([abs(q[i]) == abs(p[i]) for i in (3, 4, 5)])
    if k == 1:
        out.append(("A <= B afterwards", q[0] <= q[1] + eps))
        out.append(("C is kept", same_([2])))
    if k == 3:
        out.append(("all products are positive", Or(Not(cond), And([x > eps for x in q[3:]]))))
        out.append(("lengths are kept", same_([0, 1, 2])))
        out.append(("products are kept up to signs", absx))
    if k == 4:
        out.append(("no product is positive", Or(Not(cond), And([x <= 0 for x in q[3:]]))))
        out.append(("lengths are kept", same_([0, 1, 2])))
        out.append(("products are kept up to signs", absx))
    return out


@harness(*[N + f"_niggli_step_{k}" for k in range(1, 9)], N + "_positive_product", "wulfric._numerical.compare_with_tolerance",
         cases=range(1, 9), covers=["acts", "does not act"])
def step(vc, L, k):
    p = vc.reals("A B C xi eta zeta")
    eps = vc.real("eps")
    vc.assume(eps >= 0)
    vc.assume(pre(p, eps))
    t = vc.matrix("t", sort="int")
    cond, q, t2 = L.get(N + f"_niggli_step_{k}")(*p, t, eps=eps)
    cond = bool(cond)
    vc.cover("acts" if cond else "does not act")
    t2 = numpy.array(t2, dtype=object)
    vc.check(t2.shape == (3, 3), "a 3 x 3 matrix")
    vc.check(len(q) == 6, "six parameters")
    for lab, f in post(k, p, q, SBool(z3.BoolVal(cond)), eps):
        vc.prove(f, lab)
    # t2 = t @ m with a constant integer matrix m of determinant +-1
    sub = [(t[i, j].e, z3.IntVal(int(i == j))) for i in range(3) for j in range(3)]
    m = numpy.empty((3, 3), dtype=object)
    for i in numpy.ndindex(3, 3):
        e = znum(t2[i])
        vc.check(e.is_int(), "the matrix stays integer")
        v = z3.simplify(z3.substitute(e, *sub))
        vc.check(z3.is_int_value(v), "the columns are combined with constant numbers")
        m[i] = v.as_long() if z3.is_int_value(v) else 0
    vc.prove_eq(t2, t @ m, "the columns are combined")
    d = det3(m)
    vc.check(d in (1, -1), "the combination is unimodular", str(d))
    if k == 4:
        vc.assume(clean(p, eps))
    vc.prove_eq(obj(list(q)), obj(changed(m, p)), "the parameters are those of the combined vectors")


# ------------------------------------------------------------------------------------ the loop
class Invariant:
    """params are those of trans^T @ cell, trans is unimodular, the iterations are counted"""

    def __init__(self):
        self.world = None

    def find(self, loc):
        """the three variables of the loop, by their shapes"""
        P = T = I = None
        for k, v in loc.items():
            if isinstance(v, (tuple, list)) and len(v) == 6:
                P = k
            elif getattr(v, "shape", None) == (3, 3) and k not in ("cell", "metric_tensor"):
                T = k
        for k, v in loc.items():
            if k in ("iter_count",) or (isinstance(v, int) and not isinstance(v, bool) and v == 0):
                I = I or k
        return P, T, I

    def havoc(self, before, i):
        vc = self.world.vc
        self.names = self.find(before)
        P, T, I = self.names
        n = vc.fresh("iterations", "int")
        self.world.at_head = n
        return {P: tuple(vc.fresh("p") for _ in range(6)), T: vc.fresh_array((3, 3), "t", "int"), I: n}

    def formula(self, loc, i):
        w = self.world
        if not hasattr(self, "names"):
            self.names = self.find(loc)
        P, T, I = (loc[k] for k in self.names)
        # outside of (-1, max + 1] the loop has been left
        return [*w.lattice(P, T), ("the number of iterations is bounded", And(I >= 0, I <= w.maxiter + 1)),
                *([("the iterations are counted", I == w.at_head + 1)] if w.in_iteration else [])]


INV = Invariant()


class LoopWorld:
    def __init__(self, vc, cell, maxiter):
        self.vc, self.cell, self.maxiter = vc, cell, maxiter
        self.exact = vc.bool("products_within_the_tolerance_are_zero")
        self.g = {}
        self.in_iteration = False
        self.at_head = None
        for i in range(3):
            for j in range(3):
                self.g[i, j] = dot(cell[i], cell[j])

    def metric(self, T):
        c = numpy.array(T, dtype=object).T @ self.cell
        return six([[dot(c[i], c[j]) for j in range(3)] for i in range(3)])

    def lattice(self, P, T):
        return [("the matrix is unimodular", Or(det3(T) == 1, det3(T) == -1)),
                *[(f"{n} is the one of trans^T @ cell", Implies(self.exact, x == y)) for n, x, y in zip(("A", "B", "C", "xi", "eta", "zeta"), P, self.metric(T))]]


@harness(F, assumed=["_niggli_step_1 ... _niggli_step_8 (contracts proved in step[1..8])", "get_volume (C02)"], covers=["returned", "raised"],
         invariants={"get_niggli": INV})
def loop(vc, L):
    cell = vc.matrix("cell")
    rel = vc.real("eps_relative")
    vc.assume(rel >= 0)
    vc.assume(rel < 1)
    maxiter = vc.int("max_iterations")
    vc.assume(maxiter >= 0)
    w = LoopWorld(vc, cell, maxiter)
    INV.__dict__.pop("names", None)
    INV.world = w
    vol = vc.real("volume")
    vc.assume(vol > 0)
    L.stub("wulfric.geometry._geometry.get_volume", lambda *a, **k: vol)
    c = ctx()
    expected = rel * vol ** (1 / 3.0)
    vc.assume(expected >= 0)

    def contract(k):
        def f(A, B, C, xi, eta, zeta, trans, eps):
            p = [A, B, C, xi, eta, zeta]
            w.in_iteration = True
            vc.prove(eps == expected, f"step {k}: the tolerance is eps_relative * volume^(1/3)")
            vc.assume(pre(p, eps))  # every vector of the lattice is longer than the tolerance
            vc.assume(Implies(w.exact, clean(p, eps)))
            for lab, g in w.lattice(p, trans):
                vc.prove(g, f"precondition of step {k}: {lab}")
            q = [vc.fresh(f"s{k}_") for _ in range(6)]
            t = vc.fresh_array((3, 3), f"t{k}_", "int")
            cond = vc.fresh("acts", "bool")
            for lab, g in post(k, p, q, cond, eps):
                vc.fact(g)
            for lab, g in w.lattice(q, t):
                vc.fact(g)
            return cond, tuple(q), t

        return f

    for k in range(1, 9):
        L.stub(N + f"_niggli_step_{k}", contract(k))
    st, r = vc.call(L.get(F), cell, rel, "wulfric", maxiter)
    if st == "raise":
        vc.cover("raised")
        vc.check(type(r).__name__ == "NiggliReductionFailed", "the only failure is NiggliReductionFailed", f"{type(r).__name__}: {r}")
        vc.prove(w.at_head > maxiter, "it fails only after max_iterations")
        return
    vc.cover("returned")
    vc.check(getattr(r, "shape", None) == (3, 3), "a 3 x 3 array")
    # the returned cell is trans^T @ cell for the last matrix of the loop
    sub = {}
    t = numpy.empty((3, 3), dtype=object)
    for i in range(3):
        # coefficients of the rows: substitute unit vectors for the cell
        for j in range(3):
            s = [(cell[a, b].e, z3.RealVal(1 if (a, b) == (j, 0) else 0)) for a in range(3) for b in range(3)]
            t[j, i] = SReal(z3.simplify(z3.substitute(zreal(r[i][0]), *s)))
    vc.prove_eq(r, t.T @ cell, "the vectors are combinations of the given ones")
    for x in t.flat:
        e = x.e
        while z3.is_to_real(e):
            e = e.children()[0]
        vc.check(e.is_int() or z3.is_int_value(e) or (z3.is_rational_value(e) and e.denominator_as_long() == 1), "integer combinations", str(e))
    vc.prove(Or(det3(t) == 1, det3(t) == -1), "determinant +-1")
    vc.assume(w.exact)
    g = six([[dot(r[i], r[j]) for j in range(3)] for i in range(3)])
    m = w.metric(t)
    vc.prove_eq(obj(g), obj(m), "metric of the returned cell")
    A, B, C, xi, eta, zeta = m
    eps = expected
    vc.prove(And(A <= B + eps, B <= C + eps), "a <= b <= c")
    vc.prove(And(xi <= B + eps, -xi <= B + eps), "|2 b.c| <= b.b")
    vc.prove(And(eta <= A + eps, -eta <= A + eps), "|2 a.c| <= a.a")
    vc.prove(And(zeta <= A + eps, -zeta <= A + eps), "|2 a.b| <= a.a")
    pos = And(xi > 0, eta > 0, zeta > 0)
    vc.prove(Or(pos, And(xi <= 0, eta <= 0, zeta <= 0)), "all products positive or all non-positive")
    vc.prove(Or(pos, A + B + xi + eta + zeta >= -eps), "diagonal condition")


@harness(F, "wulfric.geometry._geometry.get_volume", covers=["refused"])
def refusals(vc, L):
    cell = vc.matrix("cell")
    vc.assume(det3(cell) == 0)
    st, r = vc.call(L.get(F), cell, implementation="wulfric")
    vc.check(st == "raise" and isinstance(r, ValueError), "a degenerate cell is refused", f"{st} {r}")
    for name in ("other", "", "wulfric2"):
        st, r = vc.call(L.get(F), cell, implementation=name)
        vc.check(st == "raise" and isinstance(r, ValueError), "an unknown implementation is refused", f"{st} {r}")
    vc.cover("refused")


@harness(F, assumed=["spglib.niggli_reduce"], covers=["spglib"])
def spglib_implementation(vc, L):
    """the default implementation hands the cell and the tolerance over to spglib"""
    import types

    cell = vc.matrix("cell")
    rel = vc.real("eps_relative")
    out = vc.matrix("reduced")
    seen = []

    def niggli_reduce(lattice=None, eps=None):
        seen.append((lattice, eps))
        return out

    sp = types.SimpleNamespace(niggli_reduce=niggli_reduce, __version__="2")
    L.spglib = sp
    f = L.get(F)
    L.load("wulfric.cell._niggli").spglib = sp
    r = f(cell, rel)
    r2 = f(cell, rel, implementation="SPGLIB")
    vc.check(len(seen) == 2 and all(same(a, cell) for a, _ in seen), "spglib gets the cell")
    vc.prove(And(seen[0][1] == rel, seen[1][1] == rel), "spglib gets the tolerance")
    vc.check(same(r, out) and same(r2, out), "the result of spglib is returned")
    vc.cover("spglib")
