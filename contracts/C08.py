"""get_primitive: the same crystal in a cell with one lattice point, any number of atoms"""
import inspect

import numpy

from contracts.common import *
from contracts.seqs import *
from contracts.crystals import Crystal
from pyvc.sym import to_fraction

F = X + "_primitive.get_primitive"
U = X + "_primitive._get_unique"
CENTRED = dict(P=1, A=2, B=2, C=2, I=2, F=4)
LATTICES = ("aP", "mP", "mC", "oP", "oA", "oC", "oF", "oI", "tP", "tI", "hP", "hR", "cP", "cF", "cI")
KEYS = [("names",), ("spglib_types", "species", "labels")]


class Source(Crystal):
    """the conventional cell of the crystal (C06): every atom is of a type of a given atom"""

    def __init__(self, vc, L, lattice, keys, u):
        super().__init__(vc, L, lattice, keys, "primitive")
        self.n_conv = count(vc, "C")
        self.conv_cell = vc.matrix("conv")
        vc.assume(det3(self.conv_cell) != 0)
        self.conv_pos = rows(vc, "conv_pos", self.n_conv, kind=numpy.ndarray)
        o = z3.Function("given_conv", z3.IntSort(), z3.IntSort())
        self.conv_types = numbers(vc, "conv_type", self.n_conv)

        def occurs(i, v):
            j = o(i)
            return And(SReal(j) >= 0, SReal(j) < self.n, self.types.at(j) == v)

        self.conv_types.axioms.append(occurs)

    def get_conventional(self, cell, atoms, convention="HPKOT", spglib_data=None):
        vc = self.vc
        vc.check(same(cell, self.cell) and (atoms is self.atoms or atoms == self.atoms), "get_conventional gets the given crystal")
        vc.check(spglib_data is self.calls.data, "get_conventional gets the data")
        vc.check(convention.lower() == self.convention.lower(), "get_conventional gets the convention")
        self.asked = True
        return self.conv_cell.copy(), dict(positions=self.conv_pos, spglib_types=self.conv_types)


def unique(w, real):
    """contract of _get_unique: some of the given atoms, each moved by a lattice translation"""
    vc = w.vc
    sig = inspect.signature(real) if real else None

    def f(*a, **k):
        vc.check(sig is not None, "the signature of _get_unique is known")
        b = sig.bind(*a, **k)
        b.apply_defaults()
        arg = b.arguments
        cell, pos, types, rep = (arg[x] for x in ("prim_cell", "non_unique_positions", "non_unique_types", "repetition_number"))
        pos, types = seq.desym(pos), seq.desym(types)
        w.unique_args = cell, pos, types, rep, arg["distance_tolerance"]
        m = w.M
        src = z3.Function("representative", z3.IntSort(), z3.IntSort())
        t = [z3.Function(f"translation_{x}", z3.IntSort(), z3.IntSort()) for x in "xyz"]
        w.rep, w.shift, w.n_prim = src, t, m

        def inside(i, v):
            return And(SReal(src(i)) >= 0, SReal(src(i)) < w.n_conv)

        p = SymSeq(m, lambda i: obj([x + SReal(z3.ToReal(g(i))) for x, g in zip(el(pos, src(i)), t)]), kind=numpy.ndarray, name="unique", shape=(3,), axioms=[inside])
        q = SymSeq(m, lambda i: el(types, src(i)), kind=numpy.ndarray, name="unique types", axioms=[inside])
        w.primitive = p, q
        return p, q

    return f


def signature_of(L, qualname):
    """signature of the real function (it is replaced by its contract)"""
    import ast

    mod, name = qualname.rsplit(".", 1)
    path, _ = L.path(mod)
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.FunctionDef) and node.name == name:
            d = {}
            exec(f"def {name}({ast.unparse(node.args)}): pass", d)
            return d[name]
    return None


@harness(F, assumed=["validate_atoms (C15)", "get_spglib_data, validate_spglib_data (C16)", "get_conventional (C06: the given crystal, same lattice)",
                     "_get_unique (each distinct atom once: contract `unique_atoms`, bounded in the number of atoms, and run-time contract)", "spglib (external): its primitive cell describes the given crystal"],
         cases=[(l, c, "+".join(k), g) for l in LATTICES for c in ("HPKOT", "SC", "hpkot", "spglib") for k in KEYS for g in (True, False)
                if not (g and k != KEYS[0]) and not (c in ("hpkot", "spglib") and l not in ("aP", "cF")) and not (k == KEYS[1] and l not in ("oF", "hR"))], covers=["cell"], z3_timeout=60000)
def primitive(vc, L, lattice, convention, keys, given):
    own = convention != "spglib"
    w = Source(vc, L, lattice, keys.split("+"), None)
    w.convention, w.asked = convention, False
    if own:
        # the type that is looked at is that of an atom of the conventional cell
        w.types.axioms.pop()
        real = signature_of(L, U)
        L.stub(X + "_conventional.get_conventional", w.get_conventional)
        L.stub(U, unique(w, real))
    else:
        L.stub(X + "_conventional.get_conventional", w.get_conventional)
    w.calls = cal = Callees(vc, L, w.cell, w.atoms, own=("get_conventional", "get_primitive"), data=w.data(L, symprec=vc.real("symprec")))
    if own:
        # ghost: an atom of the primitive cell and the last given atom of its type
        M = w.M = count(vc, "M")
        vc.assume(w.g < M)
        ghosts(vc, w.g, w.last)
        t = w.conv_types.at(z3.Function("representative", z3.IntSort(), z3.IntSort())(zint(w.g)))
        vc.assume(w.types.at(zint(w.last)) == t)
        w.types.axioms.append(lambda i, v: Implies(SReal(i) > w.last, v != t))
        w.P = M
    kw = dict(spglib_data=cal.data) if given else {}
    if convention != "HPKOT" or given:
        kw["convention"] = convention
    st, r = vc.call(L.get(F), w.cell, w.atoms, **kw)
    vc.check(st == "ok", "no exception", say(r))
    if st != "ok":
        return
    vc.cover("cell")
    vc.check("validate_atoms" in cal.log, "the atoms are validated")
    vc.check(("validate_spglib_data" if given else "get_spglib_data") in cal.log, "the data are validated if they are given, otherwise obtained from spglib")
    cell, atoms = r
    g = w.g
    if not own:
        vc.check(same(cell, w.recorded["primitive"][0]), "the cell is the primitive cell of spglib")
        w.same_crystal(cell, atoms)
        w.nothing_shared(cal.data, cell, atoms)
        return
    vc.check(w.asked, "the conventional cell is asked for")
    tab = getattr(L.load(f"wulfric.constants._{convention.lower()}_convention"), convention.upper() + "_CONVENTIONAL_TO_PRIMITIVE")[lattice]
    P = obj([[SReal(z3.RealVal(str(to_fraction(float(tab[i][j]))))) for j in range(3)] for i in range(3)])
    # (that its columns generate exactly the lattice of the centring is C10)
    vc.prove_eq(obj(cell), P.T @ w.conv_cell, "the cell is (matrix of the table)^T @ conventional cell")
    ucell, upos, utypes, rep, tol = w.unique_args
    vc.prove_eq(obj(ucell), obj(cell), "twins are looked for in the returned cell")
    n = CENTRED.get(lattice[1], 1 if convention.lower() == "sc" else 3)
    if lattice == "oA" and convention.lower() == "sc":
        n = 2
    vc.prove(rep == n, "number of twins = number of lattice points of the conventional cell")
    vc.prove(tol == cal.data.symprec, "the tolerance is that of spglib")
    j = zint(SReal(w.rep(zint(g))))
    vc.prove(length(upos) == w.n_conv, "all atoms of the conventional cell are used")
    vc.prove(length(utypes) == w.n_conv, "all types of the conventional cell are used")
    vc.prove_eq(obj(el(upos, j)) @ obj(cell), obj(el(w.conv_pos, j)) @ w.conv_cell, "atoms are at the same points in space")
    vc.prove(el(utypes, j) == el(w.conv_types, j), "atoms are of the same type")
    # the result describes the atoms of _get_unique
    p, q = w.primitive
    vc.check(set(atoms) == set(w.atoms) | {"spglib_types"}, "every key of the given atoms is present, and spglib_types", say(sorted(atoms)))
    vc.prove(length(atoms["positions"]) == w.n_prim, "each distinct atom once")
    vc.prove_eq(obj(el(atoms["positions"], g)), obj(el(p, g)), "positions of the distinct atoms")
    for k, v in atoms.items():
        if k == "positions":
            continue
        vc.prove(length(v) == w.n_prim, f"one value of {k} per atom")
        x = el(v, g)
        if k == "spglib_types":
            vc.prove(x == el(q, g), "atoms are of the same type")
            vc.check(is_sym(x) and znum(x).is_int(), "types are integers")
        if k in w.atoms:
            vc.prove(SBool(zbool(x == el(w.before[k], w.last))), f"the value of {k} is that of the last given atom of the same type")
    w.nothing_shared(cal.data, cell, atoms)


@harness(F, covers=["refused"], assumed=["validate_atoms (C15)"])
def refused(vc, L):
    w = Source(vc, L, "cF", ["names"], None)
    w.convention, w.asked = "hpkot", False
    why = vc.pick(["convention", "type", "atoms", "data"])
    L.stub(X + "_conventional.get_conventional", w.get_conventional)
    w.calls = cal = Callees(vc, L, w.cell, w.atoms, own=("get_conventional", "get_primitive"), data=w.data(L), reject=why)
    kw = {}
    if why == "convention":
        kw["convention"] = vc.pick(["Setyawan", "", "hpkott", "primitive"])
    if why == "type":
        kw["spglib_data"] = vc.pick([w.data(L), 1, "data", object()])
    if why == "data":
        kw["spglib_data"] = cal.data
    st, e = vc.call(L.get(F), w.cell, w.atoms, **kw)
    vc.cover("refused")
    ok = {"convention": lambda: type(e).__name__ == "ConventionNotSupported", "type": lambda: isinstance(e, TypeError), "atoms": lambda: isinstance(e, Bad), "data": lambda: isinstance(e, Bad)}[why]
    vc.check(st == "raise" and ok(), f"refused ({why})", say(e))


# (number of lattice points, atoms of the primitive cell); bounded in the number of atoms, not in the positions
GROUPS = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (4, 1)]


def orders(r, k):
    """the atoms in the given order: class of each (every order in which the classes can come, up to their names)"""
    out = []

    def go(s):
        if len(s) == r * k:
            out.append(tuple(s))
            return
        for c in range(min(k, max(s, default=-1) + 2)):
            if s.count(c) < r:
                go(s + [c])

    go([])
    return out


def near(vc, x, y, eps):
    """x = y up to an integer and eps"""
    d, _ = sym.integers_apart(zreal(x - y))
    d = SReal(d)
    m = sym.sym_round(d)
    return And(d - m <= eps, d - m >= -eps)


@harness(U, cases=[(r, k, "".join(map(str, o))) for r, k in GROUPS for o in orders(r, k)], covers=["unique"], z3_timeout=20000)
def unique_atoms(vc, L, r, k, order):
    """r atoms of each of k classes: equal up to a lattice translation and a quarter of the tolerance; the classes
    are further than the tolerance from each other"""
    vc.c.loops["linear"] = True
    tol = vc.real("tolerance")
    vc.assume(And(tol >= SReal(z3.RealVal("1/1000000")), tol <= SReal(z3.RealVal("1/10"))))
    base = [[vc.real(f"x{c}{a}") for a in range(3)] for c in range(k)]
    for c in range(k):
        for d in range(c):
            # the nearest images differ by more than the tolerance along one axis
            axis = (c + d) % 3
            f = vc.real(f"f{c}{d}")
            vc.assume(And(f <= SReal(z3.RealVal("1/2")), f >= SReal(z3.RealVal("-1/2")), Or(f > 2 * tol, f < -2 * tol)))
            base[c][axis] = base[d][axis] + vc.int(f"m{c}{d}") + f
    order = [int(c) for c in order]
    pos, classes = [], {}
    for i, c in enumerate(order):
        n = [vc.int(f"n{i}{a}") for a in range(3)]
        t = [vc.real(f"t{i}{a}") for a in range(3)]
        for a in range(3):
            vc.assume(And(t[a] <= tol / 8, t[a] >= -tol / 8))
        pos.append([base[c][a] + n[a] + t[a] for a in range(3)])
        classes.setdefault(c, []).append(i)
    types = [vc.int(f"type{c}") for c in range(k)]
    prim = vc.matrix("prim")
    rep = vc.real("repetition")
    quarter = SReal(z3.RealVal("1/4"))
    wrong = vc.pick([0, 1, -1])
    vc.assume(And(rep > r + wrong - quarter, rep < r + wrong + quarter))
    st, out = vc.call(L.get(U), prim, obj(pos), [types[c] for c in order], rep, distance_tolerance=tol)
    if wrong:
        vc.check(st == "raise" and isinstance(out, ValueError), "atoms with a wrong number of twins are refused", say(out))
        return
    vc.check(st == "ok", "no exception", say(out))
    if st != "ok":
        return
    vc.cover("unique")
    p, q = (list(x) for x in out)
    vc.check(len(p) == k and len(q) == k, "each distinct atom once", say(len(p)))
    wide = SReal(z3.RealVal("1/100000000"))
    seen = []
    for x, y in zip(p, q):
        # the first atom of a class, moved to the cell
        c = next((c for c in range(k) if c not in seen and isinstance(y, SReal) and z3.eq(zreal(y), zreal(types[c]))), None)
        vc.check(c is not None, "the type of an atom that was given, each class once", say(y))
        if c is None:
            continue
        seen.append(c)
        for a in range(3):
            vc.prove(And(x[a] >= 0, x[a] < 1), "in the cell")
        vc.prove(Or(*(And(*(near(vc, x[a], pos[i][a], wide) for a in range(3))) for i in classes[c])), "an atom of its class up to a lattice translation")
