"""get_conventional: the same crystal, any number of atoms"""
import numpy

from contracts.common import *
from contracts.seqs import *
from contracts.crystals import Crystal

F = X + "_conventional.get_conventional"
CELLS = X + "_conventional."
LATTICES = ("aP", "mC", "oF", "oA", "tI", "cF", "hP", "hR")
KEYS = [("names",), ("species", "masses"), ("spglib_types", "names"), ("names", "species", "spglib_types", "labels")]


@harness(F, assumed=["validate_atoms (C15)", "get_spglib_data, validate_spglib_data (C16)", "_hpkot_get_conventional_a, _sc_get_conventional_hR, _sc_get_conventional_no_hR (C07: the same lattice)", "spglib (external): its cells describe the given crystal"],
         cases=[(l, c, "+".join(k), g) for l in LATTICES for c in ("HPKOT", "SC", "spglib", "sc") for k in KEYS for g in (True, False)
                if not (g and k != KEYS[0]) and not (c in ("sc", "spglib") and k != KEYS[0]) and not (k in (KEYS[1], KEYS[3]) and l not in ("aP", "hR", "cF"))], covers=["cell"], z3_timeout=60000)
def conventional(vc, L, lattice, convention, keys, given):
    hR = convention.lower() == "sc" and lattice == "hR"
    w = Crystal(vc, L, lattice, keys.split("+"), "primitive" if hR else "conventional")
    chosen = []

    def choose(source, args):
        """C07: some cell of the same lattice"""
        vc.check(same(source, w.std["primitive" if hR else "conventional"][0]), "the cell of spglib is passed to the choice of the conventional cell")
        if "crystal_family" in args:
            vc.check((args["crystal_family"], args["centring_type"]) == (w.family, w.centring), "the lattice type is passed to the choice of the conventional cell")
        c = vc.fresh_array((3, 3), "chosen")
        vc.assume(det3(c) != 0)
        chosen.append(c)
        return c

    L.stub(CELLS + "_hpkot_get_conventional_a", lambda spglib_std_lattice, **k: choose(spglib_std_lattice, k))
    L.stub(CELLS + "_sc_get_conventional_hR", lambda spglib_primitive_cell, **k: choose(spglib_primitive_cell, k))
    L.stub(CELLS + "_sc_get_conventional_no_hR", lambda spglib_std_lattice, **k: choose(spglib_std_lattice, k))
    cal = Callees(vc, L, w.cell, w.atoms, own=("get_conventional", "get_primitive"), data=w.data(L))
    if not given:
        st, r = vc.call(L.get(F), w.cell, w.atoms, convention=convention)
    else:
        st, r = vc.call(L.get(F), w.cell, w.atoms, convention=convention, spglib_data=cal.data)
    vc.check(st == "ok", "no exception", say(r))
    if st != "ok":
        return
    vc.cover("cell")
    vc.check("validate_atoms" in cal.log, "the atoms are validated")
    vc.check(("validate_spglib_data" if given else "get_spglib_data") in cal.log, "the data are validated if they are given, otherwise obtained from spglib")
    cell, atoms = r
    own = convention.lower() == "sc" or (convention.lower() == "hpkot" and lattice[0] == "a")
    vc.check(bool(chosen) == own, "the convention decides whether the cell of spglib is the conventional one")
    want = chosen[-1] if own else w.recorded["conventional"][0]
    vc.check(same(cell, want), "the cell is that of the convention")
    w.same_crystal(cell, atoms)
    w.nothing_shared(cal.data, cell, atoms)


@harness(F, covers=["refused"], assumed=["validate_atoms (C15)"])
def refused(vc, L):
    w = Crystal(vc, L, "cF", ["names"], "conventional")
    why = vc.pick(["convention", "type", "atoms", "data"])
    cal = Callees(vc, L, w.cell, w.atoms, own=("get_conventional", "get_primitive"), data=w.data(L), reject=why)
    kw = {}
    if why == "convention":
        kw["convention"] = vc.pick(["Setyawan", "", "hpkott", "primitive"])
    if why == "type":
        kw["spglib_data"] = vc.pick([w.data(L), 1, "data", object()])
    if why == "data":
        kw["spglib_data"] = cal.data
    st, e = vc.call(L.get(F), w.cell, w.atoms, **kw)
    vc.cover("refused")
    ok = {"convention": lambda: type(e).__name__ == "ConventionNotSupported", "type": lambda: isinstance(e, TypeError), "atoms": lambda: isinstance(e, Bad), "data": lambda: isinstance(e, Bad)}[why]
    vc.check(st == "raise" and ok(), f"refused ({why})", say(e))
