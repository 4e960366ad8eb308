"""get_atom_species, get_atoms_species: any name; get_unique_names: any number of any names"""
import warnings

from contracts.common import *
from contracts.seqs import *

A = X + "_atoms."


def contained(vc, low, s):
    return zbool(seq.contains(s.lower(), low))


@harness(A + "get_atom_species", cases=[True, False], covers=["two letters", "one letter", "nothing"], max_depth=2000, max_paths=60000, budget=400)
def species(vc, L, raising):
    table = L.load("wulfric.constants._atoms").ATOM_SPECIES
    c = ctx()
    c.loops["abstract contains"] = True
    name = vc.string("name")
    low = name.lower()
    two = [s for s in table if len(s) == 2]
    one = [s for s in table if len(s) == 1]
    vc.check(len(two) + len(one) == len(table), "species have one or two letters")
    f = L.get(A + "get_atom_species")
    c.merge_from_here()
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        st, r = vc.call(f, name, raise_on_fail=True) if raising else vc.call(f, name)
    none = z3.And([z3.Not(contained(vc, low, s)) for s in table])
    if st == "raise":
        vc.check(raising and type(r).__name__ == "FailedToDeduceAtomSpecies", "only FailedToDeduceAtomSpecies is raised, if asked to raise", say(r))
        vc.prove(SBool(none), "raised only if no species occurs in the name")
        vc.cover("nothing")
        return
    if r == "X":
        vc.check(not raising, "'X' only if not asked to raise")
        vc.check(any(issubclass(w.category, RuntimeWarning) for w in got), "'X' comes with a warning")
        vc.prove(SBool(none), "'X' only if no species occurs in the name")
        vc.cover("nothing")
        return
    vc.check(r in table, "a species of the table", say(r))
    vc.check(not got, "no warning if a species is deduced")
    vc.prove(SBool(contained(vc, low, r)), "the species occurs in the name")
    if len(r) == 2:
        vc.cover("two letters")
        vc.prove(SBool(z3.And([z3.Not(contained(vc, low, s)) for s in two[: two.index(r)]])), "no earlier two-letter species of the table occurs")
    else:
        vc.cover("one letter")
        vc.prove(SBool(z3.And([z3.Not(contained(vc, low, s)) for s in two])), "one letter only if no two-letter species occurs")
        vc.prove(SBool(z3.And([z3.Not(contained(vc, low, s)) for s in one[one.index(r) + 1 :]])), "no later one-letter species of the table occurs")


class Names:
    def __init__(self, vc, L):
        self.n = vc.int("n")
        vc.assume(self.n >= 0)
        self.names = strings(vc, "name", self.n)
        self.old = strings(vc, "name", self.n)
        self.g, self.h = vc.int("g"), vc.int("h")
        vc.assume(And(self.g >= 0, self.g < self.h, self.h < self.n))
        ghosts(vc, self.g, self.h)
        self.atoms = dict(names=self.names)
        self.calls = []
        self.vc = vc
        L.stub(V, self.validate)

    def validate(self, atoms, required_keys=None, raise_errors=True):
        self.vc.check(atoms is self.atoms and list(required_keys or []) == ["names"] and raise_errors is True, "the given atoms are validated, names are required")
        self.calls.append(1)
        return True


@harness(A + "get_atoms_species", assumed=["get_atom_species (proved here)", "validate_atoms (C15)"], cases=[True, False], covers=["deduced"])
def all_species(vc, L, raising):
    w = Names(vc, L)
    sp = z3.Function("species_of", z3.StringSort(), z3.StringSort())

    def get_atom_species(name, raise_on_fail=False):
        vc.check(bool(raise_on_fail) == raising, "raise_on_fail is passed on")
        if raising and ctx().choose(2) == 0:
            ctx().assume(sp(name.e) == z3.StringVal("X"))
            raise Bad("failed")
        return seq.SymStr(sp(name.e))

    L.stub(A + "get_atom_species", get_atom_species)
    st, r = vc.call(L.get(A + "get_atoms_species"), w.atoms, raise_on_fail=raising)
    vc.check(w.calls, "the atoms are validated")
    if st == "raise":
        vc.check(raising and isinstance(r, Bad), "only the failure of the deduction is raised", say(r))
        return
    vc.cover("deduced")
    vc.prove(length(r) == w.n, "one species per atom")
    vc.prove(el(r, w.g) == seq.SymStr(sp(el(w.old, w.g).e)), "species of every atom is deduced from its name")


@harness(A + "get_unique_names", assumed=["validate_atoms (C15)"], cases=["all", "ALL", "default"], covers=["unique already", "renamed"], cut_whiles=True, z3_timeout=60000)
def unique_all(vc, L, strategy):
    w = Names(vc, L)
    f = L.get(A + "get_unique_names")
    r = f(w.atoms) if strategy == "default" else f(w.atoms, strategy=strategy)
    vc.check(w.calls, "the atoms are validated")
    vc.prove(length(r) == w.n, "one name per atom")
    r = seq.desym(r)
    a, b = el(r, w.g), el(r, w.h)
    vc.prove(a != b, "all names are different")
    vc.prove(And(a.startswith(el(w.old, w.g)), b.startswith(el(w.old, w.h))), "every name begins with the original one")
    vc.check(w.atoms["names"] is w.names and not w.names.changed(), "the given names are not modified")
    # names that are unique already: no two of them are equal
    kept = r is w.names or (z3.eq(z3.simplify(a.e), z3.simplify(el(w.old, w.g).e)) and z3.eq(z3.simplify(b.e), z3.simplify(el(w.old, w.h).e)))
    vc.cover("unique already" if kept else "renamed")
    if not kept:
        vc.prove(SBool(z3.BoolVal(repeated(w))), "renamed only if two names are equal")


def repeated(w):
    """two equal names at two different indices the path has looked at"""
    i = list(w.names.terms.items())
    for x, (k, s) in enumerate(i):
        for l, t in i[:x]:
            if ctx().lra_unsat(s == t) and ctx().engine.quiet(ctx(), zbool(w.names.memo[k] == w.names.memo[l])):
                return True
    return False


@harness(A + "get_unique_names", assumed=["validate_atoms (C15)"], covers=["refused"])
def unknown_strategy(vc, L):
    w = Names(vc, L)
    s = vc.string("strategy")
    low = s.lower()
    vc.assume(And(low != "all", low != "repeated-only"))
    st, e = vc.call(L.get(A + "get_unique_names"), w.atoms, strategy=s)
    vc.check(st == "raise" and isinstance(e, ValueError), "an unknown strategy is refused with ValueError", say(e))
    vc.cover("refused")
