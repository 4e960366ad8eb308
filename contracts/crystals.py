"""A crystal with the data of spglib, any number of atoms"""
import numpy

from contracts.common import *
from contracts.seqs import *


class Crystal:
    """A crystal with data of spglib: atoms of the given cell (n of them, with types), atoms of the
    conventional and of the primitive cell of spglib, each of a type that is among the given ones."""

    def __init__(self, vc, L, lattice, keys, where):
        self.vc = vc
        self.n, self.N, self.P = count(vc, "n"), count(vc, "N"), count(vc, "P")
        self.g = index(vc, "g", self.N if where == "conventional" else self.P)
        # the last given atom of the type of atom g
        self.last = index(vc, "last", self.n)
        ghosts(vc, self.g, self.last)
        self.types = numbers(vc, "type", self.n, positive=True)
        self.where = where
        self.std = {}
        for w, m in (("conventional", self.N), ("primitive", self.P)):
            o = z3.Function(f"given_{w}", z3.IntSort(), z3.IntSort())
            t = numbers(vc, f"{w}_type", m, kind=numpy.ndarray)

            def occurs(i, v, o=o):
                j = o(i)
                return And(SReal(j) >= 0, SReal(j) < self.n, self.types.at(j) == v)

            t.axioms.append(occurs)
            cell = vc.matrix(f"{w}_cell")
            vc.assume(det3(cell) != 0)
            self.std[w] = cell, rows(vc, f"{w}_pos", m, kind=numpy.ndarray), t
        t = self.std[where][2].at(zint(self.g))
        vc.assume(self.types.at(zint(self.last)) == t)
        self.types.axioms.append(lambda i, v: Implies(SReal(i) > self.last, v != t))
        self.atoms = dict(positions=rows(vc, "pos", self.n))
        for k in keys:
            self.atoms[k] = numbers(vc, "type", self.n, positive=True) if k == "spglib_types" else numbers(vc, "masses", self.n, "real") if k == "masses" else strings(vc, k, self.n)
        self.before = dict(self.atoms)
        self.cell = vc.matrix("cell")
        self.keep = self.cell.copy()
        self.recorded = {w: (c.copy(), p, t) for w, (c, p, t) in self.std.items()}
        self.family, self.centring = lattice
        self.lattice = lattice

    def data(self, L, **more):
        a = {}
        for w, (c, p, t) in self.std.items():
            a.update({f"{w}_cell": c, f"{w}_positions": p, f"{w}_types": t})
        return dict(a, original_types=self.types, crystal_family=self.family, centring_type=self.centring, **more)

    def same_crystal(self, cell, atoms, expected=None):
        """(cell, atoms) describe the crystal of self.where: positions, types, keys"""
        vc, (scell, spos, stype), g = self.vc, self.std[self.where], self.g
        m = self.N if self.where == "conventional" else self.P
        vc.check(set(atoms) == set(self.atoms) | {"spglib_types"}, "every key of the given atoms is present, and spglib_types", say(sorted(atoms)))
        p = atoms["positions"]
        vc.prove(length(p) == m, "as many atoms as in the cell of spglib")
        vc.prove_eq(obj(el(p, g)) @ obj(cell), obj(el(spos, g)) @ scell, "atoms are at the same points in space")
        for k, v in atoms.items():
            if k == "positions":
                continue
            vc.prove(length(v) == m, f"one value of {k} per atom")
            x = el(v, g)
            if k == "spglib_types":
                vc.prove(x == el(stype, g), "atoms are of the same type")
                vc.check(is_sym(x) and znum(x).is_int(), "types are integers")
            if k in self.atoms:
                vc.prove(SBool(zbool(x == el(self.before[k], self.last))), f"the value of {k} is that of the last given atom of the same type")

    def nothing_shared(self, d, cell, atoms):
        vc = self.vc
        vc.check(set(self.atoms) == set(self.before) and all(self.atoms[k] is v and not v.changed() for k, v in self.before.items()), "the given atoms are not modified")
        vc.check(same(self.cell, self.keep), "the given cell is not modified")
        for w, (c, p, t) in self.recorded.items():
            vc.check(same(getattr(d, f"{w}_cell"), c) and getattr(d, f"{w}_positions") is p and not p.changed() and getattr(d, f"{w}_types") is t and not t.changed(), "the data are not modified")
        vc.check(d.original_types is self.types and not self.types.changed(), "the data are not modified")
        vc.check(not any(numpy.shares_memory(cell, c) for c in [self.cell, self.std["conventional"][0], self.std["primitive"][0]]), "the returned cell is not shared with the input or the data")
        for k, v in atoms.items():
            v = seq.desym(v)
            vc.check(not any(v is u for u in [*self.atoms.values(), self.types, *(x for s in self.std.values() for x in s[1:])]), f"{k} are not shared with the input or the data")
        p = seq.desym(atoms["positions"])
        vc.check(p.kind is numpy.ndarray and not any(el(p, self.g) is el(s[1], self.g) for s in self.std.values()), "positions are not shared with the data")
