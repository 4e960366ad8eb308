import numpy as np
import wulfric

from rt import gen, xtal


def check_atoms(T, atoms, types, out, label):
    """every key present, one value per atom, from the last given atom of that type"""
    n = len(out["positions"])
    T.ok(np.shape(out["positions"]) == (n, 3), f"{label}: positions have shape (N, 3)")
    T.ok(set(out) == set(atoms) | {"positions", "spglib_types"}, f"{label}: keys of the given atoms and spglib_types", sorted(out))
    T.ok(len(out["spglib_types"]) == n, f"{label}: one spglib type per atom")
    last = {t: i for i, t in enumerate(types)}
    T.ok(all(int(t) in last for t in out["spglib_types"]), f"{label}: types are the given ones", list(out["spglib_types"]))
    for k in atoms:
        if k == "positions":
            continue
        want = [atoms[k][last[int(t)]] for t in out["spglib_types"]]
        T.ok(len(out[k]) == n and list(out[k]) == want, f"{label}: values from the last given atom of the type", lambda: f"{k}: {list(out[k])[:8]} instead of {want[:8]}")


def run(T):
    rng = T.rng
    for cell, atoms, data, info in xtal.stream(T, 2, 40):
        for conv in ("HPKOT", "SC", "spglib"):
            with T.case(**xtal.given(cell, atoms, info, convention=conv)):
                c0, a0, d0 = xtal.frozen(cell), xtal.frozen(atoms), xtal.data_state(data)
                pass_data = rng.random() < 0.7
                kw = dict(spglib_data=data) if pass_data else {}
                if conv != "HPKOT" or rng.random() < 0.5:
                    kw["convention"] = xtal.case_variants(rng, conv)
                cc, ca = wulfric.crystal.get_conventional(cell, atoms, **kw)
                types = [int(t) for t in data.original_types]
                check_atoms(T, atoms, types, ca, "conventional")
                why = gen.same_crystal(cell, atoms["positions"], types, cc, ca["positions"], [int(t) for t in ca["spglib_types"]])
                T.ok(why is None, "conventional cell describes the same crystal in the same orientation", why)
                T.ok(xtal.same(cell, c0) and xtal.same(atoms, a0), "input is not modified")
                if pass_data:
                    T.ok(xtal.same(xtal.data_state(data), d0), "spglib_data is not modified")
                    cc += 1.0
                    ca["positions"] += 1.0
                    for k in ca:
                        if k != "positions":
                            for i in range(len(ca[k])):
                                ca[k][i] = ca[k][i] * 2
                    T.ok(xtal.same(xtal.data_state(data), d0), "spglib_data is not shared with the output")
                    T.ok(xtal.same(atoms, a0), "atoms are not shared with the output")
    cell, atoms = np.eye(3) * 3.0, dict(positions=[[0, 0, 0.0]], species=["Cr"])
    with T.case(cell=cell, atoms=atoms):
        f = wulfric.crystal.get_conventional
        data = wulfric.get_spglib_data(cell, atoms)
        T.raises(Exception, lambda: f(cell, atoms, convention="unknown"), "unsupported convention is refused")
        T.raises(ValueError, lambda: f(cell * 1.1, atoms, spglib_data=data), "spglib_data of another cell are refused")
        T.raises(ValueError, lambda: f(cell, dict(atoms, positions=[[0.1, 0, 0]]), spglib_data=data), "spglib_data of other atoms are refused")
        T.raises(TypeError, lambda: f(cell, atoms, spglib_data={}), "foreign spglib_data are refused")
        c1, _ = f(cell.tolist(), atoms)
        T.close(c1, cell, "simple cubic")
