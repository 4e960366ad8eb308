"""Example cells of the SC lattices: metric of the primitive cell in the published setting, for all parameters"""
from contracts.common import *
from fractions import Fraction

from pyvc import lemmas
from pyvc.lemmas import dot

E = "wulfric.cell._sc_examples."
h = Fraction(1, 2)
# rows: primitive vectors in terms of the conventional ones (Setyawan, Curtarolo 2010)
P_ = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
F_ = [[0, h, h], [h, 0, h], [h, h, 0]]
I_ = [[-h, h, h], [h, -h, h], [h, h, -h]]
CO = [[h, -h, 0], [h, h, 0], [0, 0, 1]]
CM = [[h, h, 0], [-h, h, 0], [0, 0, 1]]
# name: (number of lengths, lengths of the conventional cell as indices, angles, centring)
SPEC = {
    "SC_CUB": ("a", "aaa", (90, 90, 90), P_),
    "SC_FCC": ("a", "aaa", (90, 90, 90), F_),
    "SC_BCC": ("a", "aaa", (90, 90, 90), I_),
    "SC_TET": ("ac", "aac", (90, 90, 90), P_),
    "SC_BCT": ("ac", "aac", (90, 90, 90), I_),
    "SC_ORC": ("abc", "abc", (90, 90, 90), P_),
    "SC_ORCF": ("abc", "abc", (90, 90, 90), F_),
    "SC_ORCI": ("abc", "abc", (90, 90, 90), I_),
    "SC_ORCC": ("abc", "abc", (90, 90, 90), CO),
    "SC_HEX": ("ac", "aac", (90, 90, 120), P_),
    "SC_RHL": ("aA", "aaa", ("A", "A", "A"), P_),
    "SC_MCL": ("abcA", "abc", ("A", 90, 90), P_),
    "SC_MCLC": ("abcA", "abc", ("A", 90, 90), CM),
}


def metric(lengths, cosines):
    (a, b, c), (ca, cb, cg) = lengths, cosines
    return [[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]]


def cosine(vc, x):
    if isinstance(x, SReal):
        return sym.cos_sin(vc.degrees(x))[0]
    return {90: 0, 120: -h}[x]


def check_metric(vc, name, cell, prim, g):
    if not vc.check(getattr(cell, "shape", None) == (3, 3), f"{name}: a (3, 3) array", str(getattr(cell, "shape", None))):
        return
    for i in range(3):
        for j in range(i, 3):
            want = sum((prim[i][k] * prim[j][l] * g[k][l] for k in range(3) for l in range(3)), 0)
            vc.prove_eq(dot(cell[i], cell[j]), want, f"{name}: scalar product {i + 1}{j + 1} of the primitive cell of the published setting")


@harness(*[E + n for n in SPEC], cases=list(SPEC), covers=["cell"])
def metrics(vc, L, name):
    names, lens, angs, prim = SPEC[name]
    v = {n: vc.real(n) for n in names}
    p = [v[n] for n in names]
    vc.assume(And([v[n] > 0 for n in names if n != "A"]))
    if "A" in v:
        al = v["A"]
        top = 120 if name == "SC_RHL" else 180
        vc.assume(And(al > 0, al < top))
        if name == "SC_RHL":
            (c1, s1), (c2, _) = sym.cos_sin(vc.degrees(al / 2)), sym.cos_sin(vc.degrees(al))
            # facts of trigonometry: the double angle; cos > cos(60) below 60 degrees
            ctx().ring.add_rule(c2.e, 1, zreal(2 * c1 * c1 - 1))
            vc.fact(c2 == 2 * c1 * c1 - 1)
            vc.fact(And(c1 > h, c1 < 1))
            vc.lemma("rhl", lambda x, y: And(x > h, x < 1, y == 2 * x * x - 1), lambda x, y: SReal(1 - zreal(y * y) / zreal(x * x)) > 0, c1, c2)
    how = vc.pick(["positional", "keyword"])
    kw = {("alpha" if n == "A" else n): v[n] for n in names}
    s, cell = vc.call(L.get(E + name), *p) if how == "positional" else vc.call(L.get(E + name), **kw)
    if not vc.check(s == "ok", f"{name}: a cell", repr(cell)):
        return
    vc.cover("cell")
    check_metric(vc, name, cell, prim, metric([v[x] for x in lens], [cosine(vc, v[x] if x == "A" else x) for x in angs]))
    vc.prove(lemmas.dot(cell[0], lemmas.cross(cell[1], cell[2])) > 0, f"{name}: right-handed") if name not in ("SC_RHL", "SC_MCL", "SC_MCLC") else None


@harness(E + "SC_TRI", "wulfric.cell._basic_manipulation.from_params", "wulfric.cell._basic_manipulation.get_reciprocal",
         assumed=["parallelepiped_check (C03)"], covers=["refused", "cell", "reciprocal"])
def triclinic(vc, L):
    p = vc.reals("a b c alpha beta gamma")
    a, b, c, al, be, ga = p
    valid = vc.pick([True, False])
    calls = []

    def check(*args, **k):
        calls.append((args, k))
        names = ("a", "b", "c", "alpha", "beta", "gamma")
        given = dict(zip(names, args), **{n: k[n] for n in names if n in k})
        vc.check(len(given) == 6 and all(same([given[n]], [x]) for n, x in zip(names, p)), "parallelepiped_check gets the parameters")
        r = k.get("raise_error", args[6] if len(args) > 6 else False)
        if not valid and r:
            raise ValueError("not a parallelepiped")
        return valid

    L.stub("wulfric.cell._basic_manipulation.parallelepiped_check", check)
    recip = vc.pick([False, True])
    if valid:
        vc.assume(And(a > 0, b > 0, c > 0, al > 0, be > 0, ga > 0, al < 180, be < 180, ga < 180))
        vc.assume(And(al < be + ga, be < al + ga, ga < al + be, al + be + ga < 360))
        gram = lemmas.half_angles(vc, al, be, ga)
        root = sym.sqrt(gram)
        s = sym.cos_sin(vc.degrees(ga))[1]
        lemmas.quot_pos(vc, root, s)
        lemmas.prod_pos(vc, c, root / s)
    s, cell = vc.call(L.get(E + "SC_TRI"), *p, **(dict(input_reciprocal=True) if recip else {}))
    if not valid:
        vc.cover("refused")
        vc.check(s == "raise" and isinstance(cell, ValueError), "parameters that can not form a cell are refused with ValueError", repr(cell))
        return
    if not vc.check(s == "ok", "a cell", repr(cell)):
        return
    vc.check(len(calls) >= 1, "the parameters are checked")
    if recip:
        vc.cover("reciprocal")
        # b_i . a_j = 2 pi delta_ij with a = the cell from the parameters, whose metric is proved below
        direct = L.get("wulfric.cell._basic_manipulation.from_params")(*p)
        for i in range(3):
            for j in range(3):
                vc.prove_eq(dot(cell[i], direct[j]), 2 * sym.PI if i == j else 0, f"SC_TRI: reciprocal vector {i + 1} . direct vector {j + 1}")
        cell = direct
    else:
        vc.cover("cell")
    check_metric(vc, "SC_TRI", cell, P_, metric((a, b, c), [cosine(vc, x) for x in (al, be, ga)]))


FAMILIES = dict(CUB=[""], FCC=[""], BCC=[""], TET=[""], BCT="12", ORC=[""], ORCF="123", ORCI=[""], ORCC=[""], HEX=[""], RHL="12", MCL=[""], MCLC="12345",
                TRI=["1a", "1b", "2a", "2b"])
NAMES = sorted({(f + v).lower() for f, vs in FAMILIES.items() for v in vs} | {f.lower() for f in FAMILIES})


@harness(E + "sc_get_example", covers=["refused", "accepted"])
def names(vc, L):
    """every string: a cell if and only if it is a name, up to the case; anything else is refused"""
    f = L.get(E + "sc_get_example")
    n = vc.string("lattice_variation")
    low = n.lower()
    s, r = vc.call(f, n)
    known = Or([low == x for x in NAMES])
    if s == "raise":
        vc.cover("refused")
        vc.check(isinstance(r, ValueError), "refused with ValueError", repr(r))
        vc.prove(Not(known), "only unknown names are refused")
        return
    vc.cover("accepted")
    vc.prove(known, "only known names are accepted")
    vc.check(getattr(r, "shape", None) == (3, 3), "a cell for every known name", str(r))


@harness(E + "sc_get_example", cases=[None, 5, 1.5, (("cub",),)], covers=["done"])
def not_names(vc, L, x):
    for v in (x, [x]):
        s, r = vc.call(L.get(E + "sc_get_example"), v)
        vc.check(s == "raise" and isinstance(r, ValueError), "something that is not a string is refused with ValueError", repr(r))
    vc.cover("done")
