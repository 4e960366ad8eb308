import copy
import warnings

import numpy as np
from wulfric.constants import ATOM_SPECIES
from wulfric.crystal import get_atom_species, get_atoms_species, get_unique_names
import wulfric

from rt.c16 import species_of

FAIL = wulfric._exceptions.FailedToDeduceAtomSpecies


def run(T):
    rng = T.rng
    chars = list("CcRrBbSsHhEeOoNnIiXxQqJj1234_-+ ?.") + ["Cr", "BR", "fe", "Ag", "cN", "oS"]
    names = list(ATOM_SPECIES) + [s.lower() for s in ATOM_SPECIES] + [s + "1" for s in ATOM_SPECIES] + ["", "q", "1", "?", "J2"]
    for i in T.loop(4000, seconds=8, name="species of a name"):
        n = names[i] if i < len(names) else "".join(chars[j] for j in rng.integers(len(chars), size=int(rng.integers(0, 7))))
        with T.case(name=n):
            want = species_of(n)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = get_atom_species(n) if i % 2 else get_atom_species(n, raise_on_fail=False)
            T.ok(got == want, "species of the published rule", (got, want))
            T.ok((want == "X") == any(issubclass(x.category, RuntimeWarning) for x in w), "a warning if and only if the deduction failed", len(w))
            if want == "X":
                T.raises(FAIL, lambda: get_atom_species(n, raise_on_fail=True), "raises FailedToDeduceAtomSpecies if asked")
            else:
                T.ok(get_atom_species(n, raise_on_fail=True) == want, "does not raise if deduced")
    for i in T.loop(300, seconds=5, name="species of atoms"):
        v = [str(rng.choice(names)) for _ in range(int(rng.integers(0, 6)))]
        with T.case(names=v):
            T.ok(list(get_atoms_species(dict(names=list(v)))) == [species_of(x) for x in v], "one species per atom")
            if any(species_of(x) == "X" for x in v):
                T.raises(FAIL, lambda: get_atoms_species(dict(names=list(v)), raise_on_fail=True), "raises FailedToDeduceAtomSpecies if asked")
    pool = ["Cr", "Cr1", "Cr2", "Cr11", "Cr12", "Br", "Br1", "A", "A1", "A11", "A111", "1", "11", "", "cr", "CR1", "a1", "cr_1"]
    for i in T.loop(6000, seconds=8, name="unique names"):
        m = int(rng.integers(1, len(pool)))
        v = [pool[j] for j in rng.permutation(len(pool))[:m][rng.integers(0, m, size=int(rng.integers(0, 14)))]]
        strategy = ["all", "repeated-only", "ALL", "Repeated-Only"][i % 4]
        with T.case(names=v, strategy=strategy):
            at = dict(names=list(v))
            u = get_unique_names(at) if strategy == "all" and i % 8 == 0 else get_unique_names(at, strategy=strategy)
            T.ok(len(u) == len(v), "one name per atom", u)
            T.ok(len(set(u)) == len(u), "all names are different", u)
            T.ok(all(isinstance(x, str) and x.startswith(y) for x, y in zip(u, v)), "each name begins with the original name", u)
            if len(set(v)) == len(v):
                T.ok(list(u) == v, "names that are already unique are returned unchanged", u)
            elif strategy.lower() == "repeated-only":
                T.ok(all(x == y for x, y in zip(u, v) if v.count(y) == 1), "repeated-only: names that occur once are kept", u)
    with T.case(strategy="wrong"):
        T.raises(ValueError, lambda: get_unique_names(dict(names=["a"]), strategy="some"), "unknown strategy is refused")
        T.raises(ValueError, lambda: get_unique_names(dict(positions=[[0, 0, 0]])), "names are required")
