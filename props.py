"""Level, technique and notes of every property (single source of MANIFEST.json and the evidence)."""

_T = "contract-based deductive verification of the real code (symbolic execution + z3/cvc5)"
PROPS = {
    "C01": dict(level="proof", technique=_T, note="All clauses proved for all real x, y and tolerances >= 0 on the real function body; floats are mathematical reals in the proof, evaluated on floats at exact (dyadic) boundaries.", assumptions=["machine arithmetic treated as real arithmetic"]),
    "C02": dict(level="proof", technique=_T, note="All clauses proved for all valid parameters / all non-degenerate cells; parallelepiped_check and get_angle by their contracts (C03, C21).", assumptions=["machine arithmetic treated as real arithmetic", "facts of sin/cos/arccos and the addition theorems", "lengths above the machine epsilon (get_angle refuses shorter vectors)"]),
    "C03": dict(level="proof", technique=_T, note="Exactness, raise_error and positive volume proved for all real parameters and tolerances >= 0.", assumptions=["machine arithmetic treated as real arithmetic", "addition theorems of sine and cosine"]),
    "C04": dict(level="proof", technique=_T, note="Duality, involution, P^T @ original = transformed and the determinant proved for all non-degenerate cells; numpy.linalg.inv is assumed to be the exact inverse.", assumptions=["machine arithmetic treated as real arithmetic", "numpy.linalg.inv/det are exact"]),
    "C05": dict(level="proof", technique=_T, note="Every step of the reduction proved for all parameters and tolerances; the loop proved by an invariant (unimodular integer matrix, parameters are those of matrix^T @ cell, counted iterations): for every number of iterations the result is an integer combination of determinant +-1 and satisfies the Niggli conditions within eps, or NiggliReductionFailed is raised after max_iterations. Agreement with the metric of the parameters is proved for products within the tolerance of zero being zero (otherwise the tracked parameters drift by up to 2 eps per iteration); spglib's implementation is external: that part and the agreement of the two implementations are bounded run-time contracts.", assumptions=["machine arithmetic treated as real arithmetic", "squared lengths of lattice vectors exceed the tolerance eps", "off-diagonal parameters within eps of zero are zero (only for the conditions of the metric, not for the lattice)", "spglib.niggli_reduce is external"]),
    "C06": dict(level="proof", technique=_T, note="Composition of get_conventional proved for any number of given and returned atoms, every lattice type, convention, every subset of the optional keys in use: same points in space, same types, values of the last given atom of the type, nothing modified or shared, what is refused. The choice of the cell by its contract (C07); spglib is external (its cells describe the crystal: bounded run-time contract on crystals of all space groups).", assumptions=["machine arithmetic treated as real arithmetic", "spglib is external: its standard cells describe the given crystal in the given orientation", "contracts of the callees (C07, C15, C16)", "values of the keys are compared as opaque values (strings, numbers)"]),
    "C08": dict(level="proof", technique=_T, note="Composition of get_primitive proved for any number of given, conventional and primitive atoms, every lattice type and convention: the cell is the table matrix (C10) applied to the conventional cell, the atoms handed to the removal of twins are the conventional ones at the same points in space with the number of lattice points as the number of twins, types and values as for C06, nothing modified or shared. The removal of twins (_get_unique) by its contract: each class of equivalent atoms once, in the cell, with its type and at the place of one of its atoms, a wrong number of twins refused. That contract is discharged for all positions, tolerances and lattice translations and every order of at most four atoms (bounded), and evaluated at run time for more.", assumptions=["machine arithmetic treated as real arithmetic", "spglib is external", "contracts of the callees (C06, C10, C15, C16)", "_get_unique: number of atoms bounded by four in its harness; more atoms by the run-time contract"]),
    "C07": dict(level="proof", technique=_T, note="Every branch of get_conventional (SC and HPKOT) proved for all standard cells with the lengths and angles of the lattice type: signed permutation of determinant +1, order of lengths, right angles, side and order of the reciprocal angles, smallest product, no internal error. That the returned reciprocal cell of HPKOT triclinic lattices is Niggli reduced is the contract of get_niggli (C05). Run-time contracts on crystals of all space groups are a bounded complement.", assumptions=["machine arithmetic treated as real arithmetic", "spglib's standard cell has the lengths and angles of its lattice type (within the angle tolerance)", "contracts of get_params, get_reciprocal, get_niggli proved for C02, C04, C05"]),
    "C09": dict(level="proof", technique=_T, note="Every answer of sc_get_variation and hpkot_get_extended_bl_symbol proved equivalent to (SC), or to imply (HPKOT, weak form at boundaries), the published inequality for all lengths and angles, all tolerances and all space groups of the family; totality; a k-path exists for every answer. Callees by their contracts.", assumptions=["machine arithmetic treated as real arithmetic", "postcondition of get_conventional for triclinic and monoclinic lattices (C07)", "that the points of the symbol are defined is C23"]),
    "C21": dict(level="proof", technique=_T, note="All clauses of get_angle, and get_spherical off and on the axis for every orthonormal pair of axes of any length, proved for all real vectors (not within the tolerance 1e-5 of the axis).", assumptions=["machine arithmetic treated as real arithmetic", "every right-handed orthonormal frame is a rotation given by a unit quaternion", "facts of arccos/sin/cos"]),
    "C10": dict(level="proof", technique=_T, note="The tables are finite: every entry of the real tables is evaluated in exact rational arithmetic against the space-group reference (spec/space_groups.json) and the defining equations (determinant 1/n, columns generate exactly the centring translations), exhaustively for all 230 groups, all lattice types and all symbols.", assumptions=["spec/space_groups.json (generated from spglib's database and cross-checked with the classification rules) is the crystallographic truth"]),
    "C11": dict(level="proof", technique=_T, note="get_path_and_points proved for every symbol of both conventions, every space group and arbitrary points of the symbol: every point of the path is returned, labels, relative/absolute coordinates, extension if and only if neither inversion nor time reversal. Callees by their contracts (C04, C06-C09, C23). That the points do not depend on the choice of the cell follows from the contracts of get_conventional/get_primitive and is evaluated at run time on equivalent cells (bounded).", assumptions=["machine arithmetic treated as real arithmetic", "contracts of the callees (C04, C06-C09, C23)", "independence of the choice of the cell: bounded run-time contract"]),
    "C12": dict(level="proof", technique=_T, note="Both directions proved for any number of subpaths with any number of points of any names; a text is represented by its unique decomposition at the separators, so every text is covered.", assumptions=["str.split and str.join are inverse for parts free of the separator"]),
    "C13": dict(level="other", technique=_T, note="All obligations are generated from the real class and discharged for every coordinates, cell and number n of points; bounded: the shape of the path is enumerated (every path of at most two subpaths with at most five points up to the names, and longer samples), states are made by the constructor and by every single add, remove or assignment on such states, and by reading, changing and reading again. Histories of operations are run-time contracts on top.", assumptions=["machine arithmetic treated as real arithmetic", "shapes of the path are enumerated (bounded)"]),
    "C14": dict(level="other", technique=_T, note="Reading: proved for any number of atoms of each species, all numbers, the three kinds of scale factors, both modes, with and without species names and selective dynamics (one to three species). Writing and reading back: all numbers, cells and number of decimals symbolic, both modes, every order of the species; bounded to three atoms and three species. A text is a Python string in which a symbolic number is one word. More atoms and real files: run-time contracts.", assumptions=["the text of a number with d decimals reads as a number within 10**-d / 2", "machine arithmetic treated as real arithmetic", "the written cell is not singular (Cartesian mode)", "at most three atoms when writing (bounded)"]),
    "C15": dict(level="proof", technique=_T, note="True / False / exception proved for dictionaries with every subset of the four known keys plus up to two further keys (one if more than two known keys), values of any length (or none) with elements of any kind, and any list of required keys; more than two unknown keys and other kinds of values are covered by the bounded run-time contract.", assumptions=["at most two keys unknown to the function (they are treated alike by the loop over the keys)", "numpy.array of a nested sequence makes an array of some shape or raises ValueError"]),
    "C16": dict(level="proof", technique=_T, note="get_spglib_types proved for any number of atoms and every combination of the keys; SpglibData and validate_spglib_data proved against the interface of spglib (what spglib receives is what is recorded and what was given; accepted only within 1e-3 relative, refused only if something differs). That spglib finds the symmetry is external.", assumptions=["spglib is external: only its interface is specified", "machine arithmetic treated as real arithmetic", "get_atom_species and validate_atoms by their contracts (C17, C15)"]),
    "C17": dict(level="proof", technique=_T, note="Deduction proved for every name against the whole table; get_atoms_species and get_unique_names with strategy 'all' proved for any number of names (loop invariants inferred and proved), unknown strategies refused. Strategy 'repeated-only' and the termination of the renaming loop are bounded run-time contracts.", assumptions=["containment of a text in a text is uninterpreted except for equal arguments", "strategy 'repeated-only' and termination: bounded run-time contract"]),
    "C18": dict(level="proof", technique=_T, note="Every clause proved for any number of atoms (positions as lists of arrays, lists of lists or an array), all real positions, cells, gravity points and R: minimum and maximum by folds with inferred and proved invariants, in-place writes followed through the loop.", assumptions=["machine arithmetic treated as real arithmetic (the rounding of ensure_000 at -1e-17 is a run-time contract)", "numpy.linalg.inv is exact"]),
    "C19": dict(level="proof", technique=_T, note="get_lattice_points proved for every cell and any three non-negative integers (every point of the row-major grid, absolute or relative, flat or grid). The extraction of the Wigner-Seitz cell / Brillouin zone from the Voronoi diagram proved for symbolic coordinates and the five combinatorial types a Wigner-Seitz cell can have (Fedorov), with shuffled labels: each vertex and edge of the cell of the origin exactly once. scipy's Voronoi diagram is external: nearest lattice points, inversion, volume, Euler are bounded run-time contracts.", assumptions=["machine arithmetic treated as real arithmetic", "scipy.spatial.Voronoi returns the faces of the cell of the origin", "labels of the vertices do not matter (two shuffled labellings of each type are evaluated)"]),
    "C20": dict(level="proof", technique=_T, note="Metric of every SC_* cell proved for all parameters; sc_get_example for every string: a cell if and only if it is a name; SC_TRI refuses exactly what parallelepiped_check (C03) refuses. The variation computed by spglib and sc_get_variation from each named example is evaluated for all the names (finite, exhaustive, floats).", assumptions=["machine arithmetic treated as real arithmetic", "facts of sin/cos (bounds by interval arithmetic for constant angles)", "spglib finds the symmetry of the named examples (evaluated for all of them)"]),
    "C22": dict(level="proof", technique=_T, note="Proved for dictionaries of any size with any keys and values and for every single read, write and deletion in any such state (so for every history); attribute access is Python's: names that are not attributes of the class go to __getattr__, and the class is proved to have none beside those of dict.", assumptions=["Python's attribute lookup", "hashing and equality of keys are consistent"]),
    "C23": dict(level="proof", technique=_T, note="Coordinates of every point of every symbol of both conventions equal the published formulas for all conventional cells; pairwise distinct under the strict published conditions; every point of the path lies on a Bragg plane (bisector of a reciprocal lattice vector) as an identity. That no other reciprocal lattice vector is closer (the point is on the boundary, not outside of the zone) is a bounded run-time contract.", assumptions=["machine arithmetic treated as real arithmetic", "the published tables as transcribed in spec/hs_points.py (confirmed by the Bragg-plane identities)", "no closer reciprocal lattice vector: bounded run-time contract"]),
}
_B = "run-time evaluation of the contracts on the real code (bounded stand-in)"
for _i in range(1, 24):
    _k = f"C{_i:02d}"
    if _k not in PROPS:
        PROPS[_k] = dict(level="exploration", technique=_B, note="Contracts evaluated on the real code under CPython for seeded inputs: bounded, nothing is proved yet.", assumptions=[])
