import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S="src/wulfric/"
p("C01","Tolerance comparison is a consistent trichotomy",
"For every pair of finite numbers and every tolerance eps >= 0 (given, or computed as atol + rtol*|y|), exactly one of x < y, x == y, x > y holds: x < y iff x < y - eps, x > y iff y < x - eps, otherwise ==. The conditions <=, >=, != are the exact negations of >, <, ==, and any other condition string is refused with ValueError.",
["inputs"],"all real x, y, eps, rtol, atol (>= 0) and all condition strings",
"The tests sample a few triples; every geometric decision in the library is taken through this function for arbitrary numbers, including both sides of the tolerance boundary.",
[S+"_numerical.py"],[("compare_with_tolerance",S+"_numerical.py")],observe=["wulfric.compare_with_tolerance"])
p("C02","Lattice parameters and cells convert into each other without loss",
"For every valid parameter set, the cell built from a, b, c, alpha, beta, gamma has exactly these lengths and angles, its first vector lies along +x, its second in the xy plane with positive y, and it is right-handed; for every non-degenerate cell, rebuilding a cell from its parameters gives the same metric. Volume computed from a cell, from three vectors or from the six parameters is the same non-negative number |det|, independent of handedness and of the order of the vectors; the reported scalar products are those of pairs (2,3), (1,3), (1,2).",
["inputs"],"all parameter sets accepted by the parallelepiped check, all non-degenerate cells",
"Tests sample cells; the order of the angles, obtuse angles, and the volume formula have to hold for all six-parameter sets.",
[S+"cell/_basic_manipulation.py",S+"geometry/_geometry.py"],
[("from_params / get_params / get_scalar_products",S+"cell/_basic_manipulation.py"),("get_volume, get_angle",S+"geometry/_geometry.py")])
p("C03","Parallelepiped check is exact",
"The parallelepiped check returns True if and only if all three lengths are positive, all three angles lie strictly between 0 and 180, every angle is smaller than the sum of the other two and the sum of the three is below 360, all within the given length and angle tolerances. With raise_error it raises ValueError exactly when it would otherwise return False, and an accepted set of parameters (non-negative tolerances) always has a positive volume, so a cell can be built from it.",
["inputs"],"all real parameter sets and all tolerances >= 0",
"The tests hit a few accepted and refused sets; no test reaches each of the 15 inequalities from both sides, in both modes.",
[S+"geometry/_geometry.py"],[("parallelepiped_check",S+"geometry/_geometry.py"),("from_params (rejects what the check rejects)",S+"cell/_basic_manipulation.py")])
p("C04","Reciprocal cell is dual and transformation matrices map cells",
"For every non-degenerate cell a and its reciprocal cell b, a_i . b_j = 2*pi*delta_ij, and the reciprocal of the reciprocal is the original cell. The transformation matrix P from one cell to another satisfies transformed = P^T @ original (rows as vectors), for list or array input, and its determinant is the signed ratio of volumes.",
["inputs"],"all non-degenerate cells and pairs of cells",
"Duality of a general (triclinic, left-handed) cell for all inputs; tests sample a handful of cells and transposition errors vanish on symmetric ones.",
[S+"cell/_basic_manipulation.py"],[("get_reciprocal, get_transformation_matrix",S+"cell/_basic_manipulation.py")])
p("C05","Niggli reduction returns the same lattice, reduced",
"For every non-degenerate cell, the cell returned by the Niggli reduction spans the same lattice (it is an integer combination with determinant +-1 of the given vectors), has the same volume, and satisfies the Niggli conditions within the requested tolerance: a <= b <= c, the main conditions |2 b.c| <= b.b, |2 a.c| <= a.a, |2 a.b| <= a.a, all three products either positive or non-positive, and in the latter case the diagonal condition. The reduction either ends with such a cell or raises; it never returns an unreduced or a different lattice, and the two implementations agree on the reduced metric.",
["inputs"],"all non-degenerate cells (both handedness), all relative tolerances, any number of reduction steps",
"The reduction is a loop whose number of iterations and branch order depend on the input; the tests sample cells and cannot cover all sequences of reduction steps.",
[S+"cell/_niggli.py"],[("get_niggli main loop",S+"cell/_niggli.py"),("_niggli_step_1 ... _niggli_step_8",S+"cell/_niggli.py")],
[("params","(A,B,C,xi,eta,zeta) of the current cell",S+"cell/_niggli.py"),("trans_matrix","integer unimodular matrix from the given to the current cell",S+"cell/_niggli.py")])
p("C06","Conventional cell describes the same crystal",
"For every crystal and every supported convention, the conventional cell with its atoms describes the same periodic structure as the given cell and atoms, in the same spatial orientation (up to a common translation): every lattice vector of one is a translation of the other, the density of every type of atom is kept, and atoms coincide with atoms of the same type. Every key of the given atoms is present with one value per atom, taken from the last given atom of that type, spglib_types is present, and neither the input nor the passed spglib_data is modified or shared.",
["inputs"],"all crystals spglib can handle (230 space groups), all conventions, any atoms keys, any orientation or setting of the input",
"Tests use a few structures; orientation and atom mapping go through matrices chosen by branches on lengths and angles, which a sample does not reach.",
[S+"crystal/_conventional.py",S+"_spglib_interface.py"],[("get_conventional and its helpers per lattice type",S+"crystal/_conventional.py"),("SpglibData (rotation back to the given orientation)",S+"_spglib_interface.py")])
p("C07","Conventional cell obeys its convention",
"The conventional cell of the SC convention has a <= b <= c for oP, oF and oI lattices, a <= b for oC, its only non-right angle is alpha <= 90 (and b <= c for mP) for monoclinic lattices, reciprocal angles all acute or all non-acute with gamma the closest to 90 for triclinic lattices, and equal lengths and equal angles for hR. The HPKOT conventional cell of a triclinic lattice has a Niggli-reduced reciprocal cell up to permutation and signs, with the reciprocal angles all acute or all non-acute and |b1*.b2*| the smallest of the three products. The choice only permutes and flips the vectors of the standard cell, keeps its handedness, and the decision covers every cell: no valid cell of the lattice type ends in an internal error.",
["inputs"],"all standard cells of each lattice type, including equal lengths and right angles",
"The orderings and sign cases are an exhaustive case split on real numbers; tests sample a few of the cases and none of the ties.",
[S+"crystal/_conventional.py"],[("_hpkot_get_conventional_a, _sc_get_conventional_oPFI / oC / m / a / hR",S+"crystal/_conventional.py")])
p("C08","Primitive cell describes the same crystal with one lattice point",
"For every crystal and every supported convention the primitive cell with its atoms describes the same periodic structure as the conventional one, in the same orientation; its volume is the conventional volume divided by the number of lattice points of the centring type and its lattice vectors are lattice translations of the crystal. Each distinct atom appears exactly once, keys and types are carried as for the conventional cell, and the output can be passed back as input and gives the same space group.",
["inputs"],"all crystals (230 space groups), all conventions, including special positions and coordinates next to 0 and 1",
"Removal of equivalent atoms and the centring matrices have to hold for every centring, every number and placement of atoms; tests cover a few structures and only check positive volume.",
[S+"crystal/_primitive.py",S+"constants/_sc_convention.py",S+"constants/_hpkot_convention.py"],[("get_primitive, _get_unique",S+"crystal/_primitive.py"),("CONVENTIONAL_TO_PRIMITIVE matrices",S+"constants/_sc_convention.py, _hpkot_convention.py")])
p("C09","Lattice variation and extended symbol follow the published inequalities",
"For every conventional cell of a lattice type, the SC variation (BCT, ORCF, RHL, MCLC, TRI) and the HPKOT extended Bravais symbol (tI, oF, oI, oC, oA, hP, hR, mC, aP, c) are exactly the ones whose published defining inequality the cell satisfies (within tolerance); the decision is total, so exactly one defined symbol is returned, or ValueError where the convention leaves a boundary undefined. A returned symbol always has a path and a set of points defined for it.",
["inputs"],"all conventional cells of each lattice type; all space groups for the group-dependent symbols",
"Tests classify one example per symbol; the partition into regions must be complete and disjoint over all real parameters.",
[S+"crystal/_sc_variation.py",S+"crystal/_hpkot_extended_bl_symbol.py"],[("sc_get_variation and _*_variation",S+"crystal/_sc_variation.py"),("hpkot_get_extended_bl_symbol",S+"crystal/_hpkot_extended_bl_symbol.py")])
p("C10","Space-group tables agree with crystallography",
"For each of the 230 space groups the tabulated crystal family, centring type and presence of inversion are those of the group; every Bravais lattice type that can occur has a name, a conventional-to-primitive matrix whose determinant is the inverse number of lattice points and whose columns generate exactly the centring translations, and every SC variation or HPKOT symbol that can occur has a k-path. Published tables of atomic species contain no duplicates.",
["configurations"],"all 230 space groups, all lattice types and all symbols",
"The tests check that keys exist and sample values; the tables are finite, and only a comparison of every entry with an independent source settles them.",
[S+"constants/_space_groups.py",S+"constants/_sc_convention.py",S+"constants/_hpkot_convention.py",S+"constants/_bravais_lattices.py",S+"constants/_kpoints.py",S+"constants/_atoms.py"],
[("CRYSTAL_FAMILY, CENTRING_TYPE, INVERSION_SYMMETRY",S+"constants/_space_groups.py"),("*_CONVENTIONAL_TO_PRIMITIVE, *_DEFAULT_K_PATHS",S+"constants")])
p("C11","Recommended k-path can be walked and agrees with its points",
"For every crystal and both conventions every point named in the recommended path is among the returned high-symmetry points and has a plot label, relative and absolute coordinates describe the same points (absolute = relative @ reciprocal cell of the given cell), and the points do not depend on how the cell of the same crystal was chosen. The path and points are extended with the inverted points (name_P at minus the coordinate, GAMMA kept) if and only if the crystal has no inversion symmetry and time reversal is switched off.",
["inputs","configurations"],"all crystals, both conventions, relative or absolute, with and without time reversal",
"Tests sample a few crystals; names, labels, tables and the change of basis meet only here and must fit for every symbol and every orientation.",
[S+"kpoints/_path_and_points.py",S+"_kpoints_class.py",S+"constants/_kpoints.py"],[("get_path_and_points",S+"kpoints/_path_and_points.py"),("Kpoints.from_crystal",S+"_kpoints_class.py"),("HS_PLOT_NAMES, *_DEFAULT_K_PATHS",S+"constants")])
p("C12","Text and list forms of a k-path are inverse",
"Converting a k-path (at least two points in each subpath, names free of '-' and '|') from list to text and back gives the same list, and converting a well-formed text to a list and back gives the same text. Order of subpaths and of points is kept; a text with a subpath of fewer than two points, and anything that is not text, is refused with ValueError.",
["inputs"],"all paths with any number of subpaths and points and any names without separators",
"The number of subpaths and points is unbounded and names are arbitrary strings; the tests sample a few paths.",
[S+"kpoints/_path_and_points.py"],[("get_path_as_list, get_path_as_string",S+"kpoints/_path_and_points.py")])
p("C13","Kpoints stays consistent through any history of operations",
"After any sequence of creating, adding, removing, setting the path or n, and copying, the names, coordinates and labels of a Kpoints object refer to the same set of points, every point of its path is defined, and a refused operation leaves the object unchanged. Labels and ticks have equal length, with jumps joined as 'X|Y' and adding no distance; points() and flat_points() have n+2 entries per segment, start and end at the high-symmetry points, are evenly spaced, and flat_points is the non-decreasing cumulative distance whose value at high-symmetry points equals the ticks; copies are independent.",
["histories","inputs"],"all histories of public operations and all reciprocal cells, points, paths and n >= 0",
"The tests build a few objects and call one or two operations; invariants have to survive arbitrary histories and path lengths.",
[S+"_kpoints_class.py"],[("Kpoints.__init__, add_hs_point, remove_hs_point, path, n, labels, ticks, points, flat_points, copy",S+"_kpoints_class.py")],
[("hs_names, hs_coordinates, hs_labels, _path, _n","representation",S+"_kpoints_class.py")])
p("C14","A structure survives a POSCAR round trip",
"Dumping any cell and atoms (Direct or Cartesian, any number of decimals, any single- or multi-line comment) and loading the file gives the same cell, the same species and the same positions to the written precision, atoms grouped by species with their relative order kept, and the comment on one line. Loading applies the scale factor as VASP defines it: a positive number multiplies the cell and Cartesian positions, a negative one is the total volume, three numbers scale the Cartesian components; selective-dynamics lines and files without species names are read correctly.",
["inputs"],"all structures, both modes, all scale factors, with and without species line and selective dynamics",
"There are no tests of the POSCAR reader and writer beyond samples; the pair has to be inverse for every structure and option.",
[S+"io/_vasp.py"],[("load_poscar, dump_poscar",S+"io/_vasp.py")])
p("C15","Validation of atoms accepts exactly the valid dictionaries",
"Validation of an atoms dictionary returns True if and only if all values have the same number of elements, all required keys are present, positions have shape (N, 3), names are strings, species are known species or 'X', and spglib_types are Python integers >= 1. With raise_errors it raises (TypeError or ValueError) in exactly the cases where it returns False without; it never modifies its input.",
["inputs"],"all dictionaries of atoms, all sets of required keys, both modes",
"The tests sample failures one at a time; acceptance has to be exact for any number of atoms and any combination of defects.",
[S+"crystal/_crystal_validation.py"],[("validate_atoms",S+"crystal/_crystal_validation.py")])
p("C16","Types passed to spglib identify atoms and data must match the crystal",
"The types deduced for atoms are positive integers, one per atom, equal for two atoms if and only if their identifiers are equal: explicit spglib_types are used as given, otherwise species, otherwise species deduced from names, with the name itself where no species can be deduced. Data produced by the spglib interface record the given cell, positions and types, and validation accepts them for exactly that cell, positions and types (within numerical tolerance) and raises ValueError for any other.",
["inputs"],"all atoms dictionaries and any number of atoms; all mismatching cells, positions or types",
"Tests compare a few lists; equality of types has to be an equivalence relation matching identifiers for any list, and any mismatch must be refused.",
[S+"_spglib_interface.py"],[("get_spglib_types, validate_spglib_data, SpglibData",S+"_spglib_interface.py")])
p("C17","Species deduction and unique names",
"The species deduced from a name is the first two-letter species, in the order of the published table, that occurs in the name regardless of case, otherwise the last one-letter species of the table that occurs, otherwise 'X' with a warning, or FailedToDeduceAtomSpecies if asked to raise. Unique naming always returns one name per atom, all different, each beginning with the original name; names that are already unique are returned unchanged, and with 'repeated-only' names that occur once are kept.",
["inputs"],"all names and all lists of names of any length, both strategies",
"Names are arbitrary strings and collisions between generated names depend on the whole list; tests sample a few lists.",
[S+"crystal/_atoms.py"],[("get_atom_species, get_atoms_species, get_unique_names",S+"crystal/_atoms.py")])
p("C18","Moving atoms is rigid and lands where promised",
"Shifting atoms and curing negative coordinates add one common vector to all positions: after shifting, the middle between the smallest and the largest coordinate equals the gravity point along every lattice vector (relative or Cartesian), and after curing all coordinates are non-negative while already non-negative components are left alone. Reducing to the (0,0,0) cell changes each coordinate by an integer into [0, 1); the vector between two atoms is (R + r2 - r1) @ cell, antisymmetric under exchange, and the distance is its length.",
["inputs"],"any number of atoms, any positions, cells, gravity points, indices and R",
"The number of atoms and the sign patterns of coordinates are unbounded; tests sample a few.",
[S+"crystal/_basic_manipulation.py"],[("shift_atoms, cure_negative, ensure_000, get_vector, get_distance",S+"crystal/_basic_manipulation.py")])
p("C19","Lattice points and Wigner-Seitz cell",
"The lattice points returned for ranges (n1, n2, n3) are exactly the integer combinations with |i| <= n1, |j| <= n2, |k| <= n3, each once, in row-major order, at i*a1 + j*a2 + k*a3 (or as integers if relative), flat or as a grid. The Wigner-Seitz cell of a (not extremely skewed) lattice consists of points that have the origin among their nearest lattice points, is inversion symmetric, satisfies Euler's relation with its edges joining existing vertices, and encloses the volume of the cell; the Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice.",
["inputs"],"all cells, all ranges; for the Wigner-Seitz part all reduced and moderately skewed cells",
"Counting and ordering must hold for all ranges; tests check a few.",
[S+"cell/_voronoi.py"],[("get_lattice_points, get_wigner_seitz_cell, get_brillouin_zone",S+"cell/_voronoi.py")])
p("C20","Example cells belong to the lattice they are named after",
"For every set of parameters (used as they are given) the SC example cell of a lattice type has the metric of the primitive cell of that lattice in the published setting, and the SC variation of every named example, computed from the cell, is the one asked for; parameters of SC_TRI that can not form a cell and unknown names are refused with ValueError.",
["inputs"],"all admissible parameters of the 14 lattice types, all named examples",
"Tests use a fixed range of random parameters and compare lengths; the metric has to hold for all parameters.",
[S+"cell/_sc_examples.py"],[("SC_CUB ... SC_TRI, sc_get_example",S+"cell/_sc_examples.py")])
p("C21","Angles and spherical coordinates",
"The angle between two non-zero vectors lies in [0, 180] degrees, is symmetric, does not depend on positive scaling, becomes 180 minus itself when one vector is reversed, and its cosine is the normalised scalar product; a zero vector is refused with ValueError. Spherical coordinates have r equal to the length, polar angle in [0, pi], azimuth in [0, 2*pi], reproduce the vector with respect to the chosen polar axis and zero direction (right-hand rule), and give azimuth 0 or pi on the axis.",
["inputs"],"all non-zero vectors, all pairs of orthogonal polar axis and zero direction, degrees and radians",
"All octants, near-parallel vectors and arbitrary axes; tests sample a few vectors with default axes.",
[S+"geometry/_geometry.py"],[("get_angle, get_spherical",S+"geometry/_geometry.py")])
p("C22","Dot access to dictionaries is faithful and reversible",
"Adding syntactic sugar to a dictionary keeps all its keys and values, and makes every key that is an identifier (and not the name of a dictionary method) readable, writable and deletable with the dot as well as with the bracket, so that both always agree; reading a missing key with the dot raises AttributeError. Removing the sugar gives back an equal plain dictionary, the given dictionary is never modified, and input that is not a dictionary is refused with ValueError.",
["inputs","histories"],"all dictionaries with identifiers as keys, any sequence of reads, writes and deletions",
"The number of keys and the mix of dot and bracket accesses are unbounded; tests do not cover it.",
[S+"_syntactic_sugar.py"],[("SyntacticSugar, add_sugar, remove_sugar",S+"_syntactic_sugar.py")])
p("C23","High-symmetry points are where the conventions put them",
"For every extended symbol of HPKOT and every variation of SC, the coordinates of each high-symmetry point, as a function of the conventional cell, are the ones published for that symbol; points of one symbol are pairwise distinct (they may merge only at the boundary of the symbol) and GAMMA is at the origin. For every crystal all other points of its recommended path lie on the boundary of the Brillouin zone of the lattice of the crystal (SC triclinic: if the reciprocal cell is reduced with |b1*.b2*| the smallest product).",
["inputs","configurations"],"all 24 HPKOT symbols and all SC variations, all cell parameters of each",
"The tests check that points exist; every coordinate formula has to hold over the whole region of parameters of its symbol.",
[S+"kpoints/_hpkot_points.py",S+"kpoints/_sc_points.py"],[("_hpkot_get_points",S+"kpoints/_hpkot_points.py"),("_sc_get_points",S+"kpoints/_sc_points.py")])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        assert d["statement"].count(". ")<=2,(d["id"],)
        f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
