"""validate_atoms: every dictionary with some of the known keys (values of any length, elements of any
kind) and up to two more keys, any list of required keys"""
from itertools import combinations

from contracts.common import *
from contracts.seqs import *

F = V  # wulfric.crystal._crystal_validation.validate_atoms
KNOWN = ("positions", "names", "species", "spglib_types")
SUBSETS = [c for k in range(5) for c in combinations(KNOWN, k)]


class World:
    """an arbitrary dictionary; `bad` are the ways in which it can be invalid"""

    def __init__(self, vc, keys, required):
        self.atoms = {}
        self.unsized = []
        ns = []
        for k in keys:
            if vc.choose(2) == 0:
                self.atoms[k] = 5  # has no length
                self.unsized.append(k)
                continue
            n = vc.int(f"n_{k}")
            vc.assume(n >= 0)
            ns.append(n)
            self.atoms[k] = Nested(n) if k == "positions" else objects(k, n)
        self.lengths = ns
        self.required = None
        if required:
            m = vc.int("m")
            vc.assume(m >= 0)
            self.required = strings(vc, "required", m)
        self.before = dict(self.atoms)

    def witnesses(self, k):
        s = self.required if k is None else self.atoms.get(k)
        return [(i, s.memo[t]) for t, i in list(s.terms.items())] if isinstance(s, SymSeq) else []

    def bad_element(self, k, x, species):
        if k == "names":
            return Not(SBool(x.is_str))
        if k == "species":
            return Not(And(SBool(x.is_str), Or(x == "X", x.isin(species))))
        return Not(And(SBool(x.is_int), SBool(x.i >= 1)))

    def invalid(self, species):
        """some element the path has looked at is invalid"""
        out = [SBool(z3.BoolVal(bool(self.unsized)))]
        out += [a != b for a, b in combinations(self.lengths, 2)]
        if self.required is not None:
            out += [And(i >= 0, i < self.required.n, *[x != k for k in self.atoms]) for i, x in self.witnesses(None)]
        if "positions" in self.atoms and "positions" not in self.unsized:
            out.append(Not(self.atoms["positions"].valid()))
        for k in KNOWN[1:]:
            n = getattr(self.atoms.get(k), "n", None)
            out += [And(SBool(z3.And(i >= 0, i < n)), self.bad_element(k, x, species)) for i, x in self.witnesses(k)]
        return Or(out)


@harness(F, cases=[("+".join(s) or "-", e, r) for s in SUBSETS for e in (0, 1, 2) for r in (False, True) if not (e == 2 and len(s) > 2)], covers=["accepted"], z3_timeout=60000)
def validate(vc, L, subset, extra, raising):
    keys = [k for k in subset.split("+") if k != "-"] + ["extra", "more"][:extra]
    required = vc.choose(2) == 0
    w = World(vc, keys, required)
    g = vc.int("g")
    ghosts(vc, g)
    f = L.get(F)
    species = L.load("wulfric.constants._atoms").ATOM_SPECIES
    kw = dict(required_keys=w.required) if required else {}
    if not raising:
        kw["raise_errors"] = False
    elif vc.choose(2) == 0:
        kw["raise_errors"] = True
    st, r = vc.call(f, w.atoms, **kw)
    vc.check(list(w.atoms) == list(w.before) and all(w.atoms[k] is w.before[k] for k in keys), "the input is not modified")
    if st == "ok" and r is True:
        vc.cover("accepted")
        vc.check(not w.unsized, "True only if every value has a length")
        vc.prove(And([a == b for a, b in combinations(w.lengths, 2)] + [SBool(z3.BoolVal(True))]), "True only if all values have the same number of elements")
        if required:
            vc.prove(Implies(And(g >= 0, g < w.required.length()), Or([el(w.required, g) == k for k in keys] + [SBool(z3.BoolVal(False))])), "True only if every required key is present")
        if "positions" in keys:
            vc.prove(w.atoms["positions"].valid(), "True only if positions have the shape (N, 3)")
        for k in KNOWN[1:]:
            if k in keys:
                x = w.atoms[k]
                vc.prove(Implies(And(g >= 0, g < x.length()), Not(w.bad_element(k, el(x, g), species))), f"True only if every element of {k} is valid")
    elif st == "ok":
        vc.check(r is False and not raising, "returns True, or False with raise_errors=False", say(r))
        vc.prove(w.invalid(species), "False only if the dictionary is invalid")
    else:
        vc.check(raising and isinstance(r, (TypeError, ValueError)), "raises TypeError or ValueError, only with raise_errors", say(r))
        vc.prove(w.invalid(species), "raises only if the dictionary is invalid")
