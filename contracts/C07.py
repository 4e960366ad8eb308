"""The conventional cell obeys its convention (get_conventional with the functions of _conventional.py)"""
from contracts.common import *
from pyvc.lemmas import dot, cross

G = X + "_conventional.get_conventional"
P = X + "_conventional._"
ASSUMED = ["get_params, get_angle (C02, C21)", "get_reciprocal (C04)", "validate_atoms (C15)", "validate_spglib_data (C16)"]


class World(Callees):
    """get_conventional itself is under contract here; its data are a standard cell with one atom"""

    def __init__(self, vc, L, family, centring, **k):
        self.bases = Bases(vc)
        self.std = Basis(vc, "std")
        self.rstd = Basis(vc, "rstd")
        self.bases.add(self.std, self.rstd)
        r = self.std.rows
        vc.assume(dot(r[0], cross(r[1], r[2])) != 0)
        self.vc = vc
        cell = vc.matrix("cell")
        pos = vc.matrix("pos", 1, 3)
        at = dict(positions=[[0, 0, 0]], names=["X"])
        self.L = L
        prim = self.std.rows
        L.stub(X + "_conventional.get_niggli", self.get_niggli)
        super().__init__(vc, L, cell, at, own=("get_conventional", "get_primitive"), data=dict(crystal_family=family, centring_type=centring, conventional_cell=self.std.rows, primitive_cell=prim,
                                                   conventional_positions=pos, primitive_positions=pos, conventional_types=[1], primitive_types=[1],
                                                   original_types=[1], original_cell=cell, original_positions=pos, space_group_number=k.pop("sg", 1), **k))

    def get_params(self, cell):
        return self.bases.get_params(cell)

    def get_reciprocal(self, cell):
        return self.bases.get_reciprocal(cell)

    def get_niggli(self, *a, **k):
        raise Unsupported("get_niggli")

    def run(self, convention):
        vc = self.vc
        st, r = vc.call(self.L.get(G), self.cell, self.atoms, convention, self.data)
        vc.check(st == "ok", "no valid cell of the lattice type ends in an error", f"{type(r).__name__}: {r}" if st != "ok" else "")
        if st != "ok":
            raise PathEnd()
        vc.cover("cell")
        return r[0]

    def permuted(self, m):
        """the result is a signed permutation of the standard cell and keeps its handedness"""
        t = self.std.find(m)
        self.vc.check(t is not None, "the choice only permutes and flips the vectors of the standard cell")
        if t is None:
            raise PathEnd()
        self.vc.check(handedness(t) == 1, "handedness is kept", str(t))
        return t, self.std.params(t)


@harness(G, P + "sc_get_conventional_no_hR", P + "sc_get_conventional_oPFI", cases=["P", "F", "I"], assumed=ASSUMED, covers=["cell"])
def sc_oPFI(vc, L, centring):
    w = World(vc, L, "o", centring)
    t, p = w.permuted(w.run("SC"))
    vc.prove(And(p[0] <= p[1], p[1] <= p[2]), "a <= b <= c")


@harness(G, P + "sc_get_conventional_no_hR", P + "sc_get_conventional_oC", cases=["C", "A"], assumed=ASSUMED, covers=["cell"])
def sc_oC(vc, L, centring):
    w = World(vc, L, "o", centring)
    t, p = w.permuted(w.run("SC"))
    vc.prove(p[0] <= p[1], "a <= b")
    # the centred face is the ab face: of the standard cell it is ab (C) or bc (A)
    vc.check({t[0][0], t[1][0]} == ({0, 1} if centring == "C" else {1, 2}), "the centred face is spanned by a and b", str(t))


@harness(G, P + "sc_get_conventional_no_hR", P + "sc_get_conventional_m", "wulfric._numerical.compare_with_tolerance",
         cases=[(c, k) for c in "PC" for k in ("default", "given")], assumed=ASSUMED, covers=["cell"])
def sc_m(vc, L, centring, tol):
    ang, at = tolerance(vc, tol)
    w = World(vc, L, "m", centring, angle_tolerance=at)
    right = lambda x: And(x <= 90 + ang, x >= 90 - ang)
    al, be, ga = w.std.ang
    if centring == "P":
        vc.assume(Or(And(right(be), right(ga)), And(right(al), right(be)), And(right(al), right(ga))))
    else:  # C: the centred face ab contains the unique axis
        vc.assume(Or(And(right(be), right(ga)), And(right(al), right(ga))))
    t, p = w.permuted(w.run("SC"))
    vc.prove(And(right(p[4]), right(p[5])), "beta and gamma are right angles")
    vc.prove(p[3] <= 90 + ang, "alpha <= 90")
    if centring == "P":
        vc.prove(p[1] <= p[2], "b <= c")
    else:
        vc.check({t[0][0], t[1][0]} == {0, 1}, "the centred face is spanned by a and b", str(t))


def tolerance(vc, tol):
    if tol == "default":
        return sym.to_fraction(1e-4), -1
    ang = vc.real("angle_tolerance")
    vc.assume(ang >= 0)
    vc.assume(ang < 45)
    return ang, ang


@harness(G, P + "sc_get_conventional_no_hR", P + "sc_get_conventional_a", cases=["default", "given"], assumed=ASSUMED, covers=["cell"])
def sc_a(vc, L, tol):
    ang, at = tolerance(vc, tol)
    w = World(vc, L, "a", "P", angle_tolerance=at)
    t, _ = w.permuted(w.run("SC"))
    ra, rb, rg = w.rstd.params(t)[3:]
    one_side(vc, ra, rb, rg)
    far = lambda x: If_abs(x - 90)
    vc.prove(And(far(rg) <= far(ra) + ang, far(rg) <= far(rb) + ang), "gamma* is the closest to 90 within the tolerance")


def If_abs(x):
    return SReal(z3.If(zreal(x) >= 0, zreal(x), -zreal(x)))


def one_side(vc, ra, rb, rg):
    vc.prove(Or(And(ra < 90, rb < 90, rg < 90), And(ra >= 90, rb >= 90, rg >= 90)), "reciprocal angles are all acute or all non-acute")


@harness(G, P + "sc_get_conventional_hR", cases=["default", "given"], assumed=ASSUMED, covers=["cell"])
def sc_hR(vc, L, tol):
    """rhombohedral primitive cell: equal lengths; equal angles after flipping some of the vectors"""
    ang, at = tolerance(vc, tol)
    eps = vc.real("symprec")
    vc.assume(eps >= 0)
    w = World(vc, L, "h", "R", angle_tolerance=at, symprec=eps)
    a, b, c = w.std.len
    al, be, ga = w.std.ang
    eq = lambda x, y, e: And(x <= y + e, x >= y - e)
    vc.assume(And(eq(a, b, eps), eq(a, c, eps), eq(b, c, eps)))
    o = lambda x: 180 - x
    vc.assume(Or([And(eq(x, y, 0), eq(x, z, 0)) for x, y, z in ((al, be, ga), (al, o(be), o(ga)), (o(al), be, o(ga)), (o(al), o(be), ga))]))
    m = w.run("SC")
    t, p = w.permuted(m)
    e2 = 2 * ang
    vc.prove(And(eq(p[3], p[4], e2), eq(p[3], p[5], e2), eq(p[4], p[5], e2)), "equal angles")
    vc.prove(And(eq(p[0], p[1], eps), eq(p[0], p[2], eps)), "equal lengths")


@harness(G, P + "sc_get_conventional_no_hR", cases=[("c", "P"), ("c", "F"), ("c", "I"), ("t", "P"), ("t", "I"), ("h", "P")], assumed=ASSUMED, covers=["cell"])
def sc_others(vc, L, f, c):
    w = World(vc, L, f, c)
    t, p = w.permuted(w.run("SC"))
    if f != "c":  # the unique axis stays the third one; a cube may be turned
        vc.check(t[2][0] == 2, "the unique axis is the third", str(t))


@harness(G, cases=[f for f in ("cP", "cF", "cI", "tP", "tI", "oP", "oF", "oI", "oC", "oA", "hP", "hR", "mP", "mC")], assumed=ASSUMED, covers=["cell"])
def hpkot_others(vc, L, lt):
    w = World(vc, L, lt[0], lt[1])
    m = w.run("HPKOT")
    vc.prove_eq(m, w.std.rows, "the standard cell of crystallography")


@harness(G, P + "hpkot_get_conventional_a", assumed=ASSUMED + ["get_niggli (C05)"], covers=["cell"])
def hpkot_a(vc, L):
    w = World(vc, L, "a", "P")
    red, rred = Basis(vc, "step1"), Basis(vc, "reduced")

    def get_niggli(cell, *a, **k):
        # contract: another cell of the same lattice, Niggli reduced; here: any cell, with its angles
        b, t = w.bases.find(cell)
        vc.check(b is w.rstd, "the reciprocal cell of the standard cell is reduced")
        vc.check(not k.get("return_transformation_matrix", False), "get_niggli is asked for the cell")
        w.bases.add(red, rred)
        r = rred.rows
        vc.assume(dot(r[0], cross(r[1], r[2])) != 0)
        s = red.rows
        vc.assume(dot(s[0], cross(s[1], s[2])) != 0)
        for k_, (i, j) in enumerate(((1, 2), (0, 2), (0, 1))):
            x, d = rred.ang[k_], dot(r[i], r[j])
            vc.fact(And(Iff(x < 90, d > 0), Iff(x > 90, d < 0), Iff(x == 90, d == 0)))
        return rred.rows.copy()

    w.get_niggli = get_niggli
    L.stub(X + "_conventional.get_niggli", get_niggli)
    m = w.run("HPKOT")
    t = red.find(m)
    vc.check(t is not None, "the reciprocal cell is the Niggli reduced one up to permutation and signs")
    if t is None:
        return
    vc.check(handedness(t) == 1, "handedness of the reduced cell is kept", str(t))
    ra, rb, rg = rred.params(t)[3:]
    one_side(vc, ra, rb, rg)
    q = rred.image(t)
    ab = abs(dot(q[0], q[1]))
    vc.prove(And(ab <= abs(dot(q[1], q[2])), ab <= abs(dot(q[0], q[2]))), "|b1*.b2*| is the smallest product")
