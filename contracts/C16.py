"""get_spglib_types, SpglibData, validate_spglib_data: any number of atoms"""
import numpy

from contracts.common import *
from contracts.seqs import *

T = S + "get_spglib_types"
SPECIES = "wulfric.crystal._atoms.get_atom_species"
KEYS = ["spglib_types", "species", "names"]
CASES = [[k for k, b in zip(KEYS, m) if b] for m in numpy.ndindex(2, 2, 2)]


class World:
    """atoms with some of the keys; get_atom_species and validate_atoms by their contracts"""

    def __init__(self, vc, L, keys, positions=True):
        self.vc, self.keys = vc, keys
        self.n = count(vc)
        self.g, self.h = index(vc, "g", self.n), index(vc, "h", self.n)
        ghosts(vc, self.g, self.h)
        self.atoms = {}
        for k in keys:
            self.atoms[k] = numbers(vc, "type", self.n, positive=True) if k == "spglib_types" else strings(vc, k, self.n)
        if positions:
            self.atoms["positions"] = rows(vc, "pos", self.n)
        self.before = dict(self.atoms)
        self.validated = 0
        self.sp = z3.Function("species_of", z3.StringSort(), z3.StringSort())
        L.stub(V, self.validate)
        L.stub(SPECIES, self.species)

    def validate(self, atoms, required_keys=None, raise_errors=True):
        self.vc.check(atoms is self.atoms and raise_errors is True, "the given atoms are validated")
        self.validated += 1
        return True

    def species(self, name, raise_on_fail=False):
        self.vc.check(not raise_on_fail, "no exception if no species can be deduced")
        return seq.SymStr(self.sp(name.e))

    def identifier(self, g):
        """what the type of atom g identifies"""
        if "spglib_types" in self.keys:
            return znum(el(numbers(self.vc, "type", self.n, positive=True), g))
        if "species" in self.keys:
            return el(strings(self.vc, "species", self.n), g).e
        e = el(strings(self.vc, "names", self.n), g).e
        return z3.If(self.sp(e) == z3.StringVal("X"), e, self.sp(e))

    def unchanged(self):
        self.vc.check(list(self.atoms) == list(self.before) and all(self.atoms[k] is v and not v.changed() for k, v in self.before.items()), "the atoms are not modified")


@harness(T, assumed=["validate_atoms (C15)", "get_atom_species (C17)"], cases=[("+".join(k) or "none", p) for k in CASES for p in (True, False)], covers=["answer"], z3_timeout=60000)
def types(vc, L, keys, positions):
    keys = [] if keys == "none" else keys.split("+")
    w = World(vc, L, keys, positions)
    st, r = vc.call(L.get(T), w.atoms)
    vc.cover("answer")
    vc.check(w.validated, "the atoms are validated")
    w.unchanged()
    if not keys:
        vc.check(st == "raise" and isinstance(r, ValueError), "without identifiers ValueError is raised", say(r))
        return
    vc.check(st == "ok", "no exception if there are identifiers", say(r))
    if st != "ok":
        return
    vc.prove(length(r) == w.n, "one type per atom")
    a, b = el(r, w.g), el(r, w.h)
    vc.check(is_sym(a) and znum(a).is_int(), "types are integers")
    vc.prove(a >= 1, "types are positive")
    if "spglib_types" in keys:
        vc.prove_eq(a, SReal(w.identifier(w.g)), "explicit types are used as given")
    vc.prove(Iff(a == b, SBool(w.identifier(w.g) == w.identifier(w.h))), "types of two atoms are equal if and only if their identifiers are")


class Dataset:
    pass


class Spglib:
    """spglib by its interface: some data set for the crystal that is passed"""

    __version__ = "some version"

    def __init__(self, vc, known=True):
        self.vc, self.calls, self.known = vc, [], known

    def get_symmetry_dataset(self, cell, symprec=1e-5, angle_tolerance=-1.0, hall_number=0):
        self.calls.append(("dataset", cell, symprec, angle_tolerance))
        if not self.known:
            return None
        d = Dataset()
        d.number = 1 + self.vc.choose(2) * 194
        d.std_lattice = self.vc.fresh_array((3, 3), "std")
        d.std_rotation_matrix = self.vc.fresh_array((3, 3), "rot")
        n = self.vc.int("n_std")
        d.std_positions = rows(self.vc, "std_pos", n, kind=numpy.ndarray)
        d.std_types = numbers(self.vc, "std_type", n, kind=numpy.ndarray)
        self.d = d
        return d

    def find_primitive(self, cell, symprec=1e-5, angle_tolerance=-1.0):
        self.calls.append(("primitive", cell, symprec, angle_tolerance))
        n = self.vc.int("n_prim")
        self.p = self.vc.fresh_array((3, 3), "prim"), rows(self.vc, "prim_pos", n, kind=numpy.ndarray), numbers(self.vc, "prim_type", n, kind=numpy.ndarray)
        return self.p


def equal_rows(a, b, g):
    return And([x == y for x, y in zip(obj(el(a, g)), obj(el(b, g)))])


@harness(S + "SpglibData", S + "get_spglib_data", assumed=["validate_atoms (C15)", "get_spglib_types (proved here)", "spglib (external)"],
         cases=[(k, c, d) for k in ("array", "list", "ndarray") for c in ("array", "list") for d in ("explicit", "deduced")], covers=["data"])
def data(vc, L, kind, ckind, tkind):
    L.spglib = lib = Spglib(vc)
    w = World(vc, L, ["spglib_types"] if tkind == "explicit" else ["species"])
    w.atoms["positions"] = rows(vc, "pos", w.n, kind if kind != "ndarray" else "array", numpy.ndarray if kind == "ndarray" else list)
    old = rows(vc, "pos", w.n)
    cell = vc.matrix("cell")
    given = cell.copy() if ckind == "array" else [list(r) for r in cell]
    w.before = dict(w.atoms)
    deduced = numbers(vc, "type", w.n, positive=True)

    def get_spglib_types(atoms):
        vc.check(atoms is w.atoms, "the types of the given atoms are deduced")
        return w.atoms["spglib_types"] if tkind == "explicit" else deduced

    L.stub(T, get_spglib_types)
    m = L.load("wulfric._spglib_interface").__dict__
    m["spglib"] = lib
    given_tol = vc.choose(2) == 0
    kw = dict(spglib_symprec=0.25, spglib_angle_tolerance=3.0) if given_tol else {}
    st, d = vc.call(L.get(S + "get_spglib_data"), given, w.atoms, **kw)
    vc.check(st == "ok", "no exception if spglib finds the symmetry", say(d))
    if st != "ok":
        return
    vc.cover("data")
    w.unchanged()
    vc.check(same(given, cell), "the cell is not modified")
    vc.check(same(d.original_cell, cell), "the data record the given cell")
    vc.check(d.original_cell is not given, "the recorded cell is not the given object")
    p, t = seq.desym(d.original_positions), seq.desym(d.original_types)
    vc.prove(And(length(p) == w.n, length(t) == w.n), "the data record as many positions and types as given")
    vc.prove(equal_rows(p, old, w.g), "the data record the given positions")
    vc.check(p is not w.atoms["positions"] and el(p, w.g) is not el(w.atoms["positions"], w.g), "the recorded positions do not share memory with the given ones")
    vc.prove(el(t, w.g) == el(numbers(vc, "type", w.n, positive=True), w.g), "the data record the types")
    vc.check(t is not w.atoms.get("spglib_types"), "the recorded types are not the given object")
    for name, (c, q, y), s, a in lib.calls:
        vc.check(same(c, cell), f"spglib gets the given cell ({name})")
        vc.check(s == kw.get("spglib_symprec", 1e-5) and a == kw.get("spglib_angle_tolerance", -1), f"spglib gets the tolerances ({name})")
        vc.prove(And(equal_rows(q, old, w.g), el(y, w.g) == el(t, w.g)), f"spglib gets the given positions and types ({name})")
        vc.prove(And(length(q) == w.n, length(y) == w.n), f"spglib gets all positions and types ({name})")
    vc.check({c[0] for c in lib.calls} == {"dataset", "primitive"}, "conventional and primitive cell are those of spglib")
    vc.check((d.symprec, d.angle_tolerance) == (kw.get("spglib_symprec", 1e-5), kw.get("spglib_angle_tolerance", -1)), "the data record the tolerances")
    vc.check(d.spglib_version == lib.__version__ and d.space_group_number == lib.d.number, "version and space group are those of spglib")
    consts = L.load("wulfric.constants._space_groups")
    vc.check(d.crystal_family == consts.CRYSTAL_FAMILY[lib.d.number] and d.centring_type == consts.CENTRING_TYPE[lib.d.number], "family and centring of the space group")
    vc.prove_eq(d.conventional_cell, lib.d.std_lattice @ lib.d.std_rotation_matrix, "conventional cell in the orientation of the given crystal")
    vc.prove_eq(d.primitive_cell, lib.p[0] @ lib.d.std_rotation_matrix, "primitive cell in the orientation of the given crystal")
    g = index(vc, "k", d.conventional_positions.length())
    vc.prove(And(equal_rows(d.conventional_positions, lib.d.std_positions, g), el(d.conventional_types, g) == el(lib.d.std_types, g)), "conventional positions and types are those of spglib")
    g = index(vc, "l", d.primitive_positions.length())
    vc.prove(And(equal_rows(d.primitive_positions, lib.p[1], g), el(d.primitive_types, g) == el(lib.p[2], g)), "primitive positions and types are those of spglib")


@harness(S + "SpglibData", assumed=["validate_atoms (C15)", "spglib (external)"], covers=["refused"])
def no_symmetry(vc, L):
    L.spglib = lib = Spglib(vc, known=False)
    w = World(vc, L, ["spglib_types"])
    L.load("wulfric._spglib_interface").__dict__["spglib"] = lib
    st, e = vc.call(L.get(S + "get_spglib_data"), vc.matrix("cell"), w.atoms)
    vc.check(st == "raise" and isinstance(e, Exception), "an exception if spglib does not find the symmetry")
    vc.cover("refused")


def close(a, b):
    """|a - b| within 1e-8 + 1e-5 |b|"""
    return abs(a - b) <= sym.to_fraction(1e-8) + sym.to_fraction(1e-5) * abs(b)


@harness(S + "validate_spglib_data", assumed=["get_spglib_types (proved here)", "validate_atoms (C15)"], cases=[(k, s) for k in ("array", "list", "ndarray") for s in (True, False)], covers=["accepted"], z3_timeout=60000)
def validate(vc, L, kind, same_n):
    n = count(vc)
    m = n if same_n else count(vc, "m")
    g = vc.int("g")
    ghosts(vc, g)
    p = rows(vc, "pos", n, kind if kind != "ndarray" else "array", numpy.ndarray if kind == "ndarray" else list)
    q = rows(vc, "old", m, kind=numpy.ndarray)
    t, u = numbers(vc, "type", n), numbers(vc, "old_type", m)
    cell, orig = vc.matrix("cell"), vc.matrix("orig")
    atoms = dict(positions=p, names=object())

    given = atoms

    def get_spglib_types(atoms):
        vc.check(atoms is given, "the types of the given atoms are compared")
        return t

    L.stub(T, get_spglib_types)
    d = spglib_data(vc, L, original_cell=orig, original_positions=q, original_types=u)
    f = L.get(S + "validate_spglib_data")
    st, r = vc.call(f, cell, atoms, d)
    inside = And(g >= 0, g < n, g < m)
    far = sym.to_fraction(1e-3)
    if st == "ok":
        vc.cover("accepted")
        vc.check(r is None, "returns None")
        vc.prove(n == m, "accepted only for the same number of atoms")
        vc.prove(Implies(inside, el(t, g) == el(u, g)), "accepted only for the same types")
        for x, y in zip(obj(cell).flat, obj(orig).flat):
            vc.prove(abs(x - y) <= far * (1 + abs(y)), "accepted only for the same cell within numerical tolerance")
        for x, y in zip(obj(el(p, g)), obj(el(q, g))):
            vc.prove(Implies(inside, abs(x - y) <= far * (1 + abs(y))), "accepted only for the same positions within numerical tolerance")
    else:
        vc.check(isinstance(r, ValueError), "refused with ValueError", say(r))
        # refused only if something differs: at an index the path has looked at
        out = [x != y for x, y in zip(obj(cell).flat, obj(orig).flat)] + [n != m]
        for s1, s2 in ((p, q), (t, u)):
            for k, i in list(s1.terms.items()):
                for a, b in zip(obj([s1.at(i)]).flat, obj([s2.at(i)]).flat):
                    out.append(And(SReal(i) >= 0, SReal(i) < n, a != b))
        vc.prove(Or([SBool(zbool(o)) for o in out]), "refused only if cell, positions or types differ")
