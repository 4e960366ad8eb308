exec(open("/verif/tools/plants1.py").read().split("P(\"c01-zero-eps\"")[0])
P("c04-left-handed", "C04", [("cell/_basic_manipulation.py", "    return 2 * PI * np.linalg.inv(cell).T", "    a1, a2, a3 = np.array(cell, dtype=float)\n    volume = abs(a1 @ np.cross(a2, a3))\n    return 2 * PI / volume * np.array([np.cross(a2, a3), np.cross(a3, a1), np.cross(a1, a2)])")],
  "a left-handed cell", "reciprocal vectors of left-handed cells have the wrong sign",
"""
m = np.array([[0, 2.0, 0.1], [1.5, 0, 0], [0.2, 0, 3]])
check(np.linalg.det(m) < 0)
for c in (m, m[[1, 0, 2]]):
    check(np.allclose(c @ wulfric.cell.get_reciprocal(c).T, 2 * np.pi * np.eye(3)))
""")
P("c04-rounded-matrix", "C04", [("cell/_basic_manipulation.py", "    return np.linalg.inv(original_cell).T @ np.transpose(transformed_cell)", "    matrix = np.linalg.inv(original_cell).T @ np.transpose(transformed_cell)\n    # Remove numerical noise from the integer elements\n    return np.where(np.abs(matrix - np.round(matrix)) < 1e-3, np.round(matrix), matrix)")],
  "two cells that are almost related by an integer matrix (a strained supercell)", "the matrix does not map the original cell to the transformed one",
"""
from wulfric.cell import get_transformation_matrix as f
c = np.array([[3.0, 0, 0], [0.2, 4, 0], [0.1, 0.3, 5]])
for m in (np.array([[1, 1, 0], [0, 2, 0], [0.5, 0, 1]]), np.diag([1.0005, 2, 1]), np.array([[1, 4e-4, 0], [0, 1, 0], [0, 0, 1]])):
    check(np.allclose(f(c, m.T @ c), m, atol=1e-9, rtol=0))
""")
P("c09-group-163", "C09", [("crystal/_hpkot_extended_bl_symbol.py", "or 159 <= spglib_data.space_group_number <= 163", "or 159 <= spglib_data.space_group_number < 163")],
  "a crystal with the space group 163", "the symbol is hP2 instead of hP1",
"""
import spglib
from wulfric.crystal import hpkot_get_extended_bl_symbol as f
a = 4.0
cell = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, 6.3]])
def build(hall):
    s = spglib.get_symmetry_from_database(hall)
    def orb(x):
        p = []
        for r, t in zip(s["rotations"], s["translations"]):
            q = (r @ np.array(x) + t) % 1
            if not any(np.allclose((q - w + 0.5) % 1, 0.5, atol=1e-5) for w in p):
                p.append(q)
        return p
    a1, a2 = orb((0.13, 0.37, 0.19)), orb((0.41, 0.11, 0.07))
    return dict(names=["Fe"] * len(a1) + ["O"] * len(a2), positions=np.array(a1 + a2))
for n, want in ((162, "hP1"), (163, "hP1"), (164, "hP2"), (165, "hP2"), (159, "hP1"), (158, "hP2")):
    hall = next(h for h in range(1, 531) if spglib.get_spacegroup_type(h).number == n)
    atoms = build(hall)
    check(wulfric.get_spglib_data(cell, atoms).space_group_number == n, n)
    check(f(cell, atoms) == want, (n, f(cell, atoms)))
""")
P("c09-tri-max", "C09", [("crystal/_sc_variation.py", 'elif cwt(max(k_gamma, k_beta, k_alpha), "<", 90, eps=angle_tolerance):', 'elif cwt(max(k_gamma, k_alpha), "<", 90, eps=angle_tolerance):')],
  "reciprocal angles of which only beta is obtuse", "a triclinic lattice with mixed reciprocal angles is called TRI1b",
"""
from wulfric.crystal._sc_variation import _TRI_variation as f
check(f(80.0, 85.0, 70.0) == "TRI1b"); check(f(100.0, 95.0, 110.0) == "TRI1a")
check(f(80.0, 110.0, 70.0) != "TRI1b", f(80.0, 110.0, 70.0))
""")
P("c09-mclc-order", "C09", [("crystal/_sc_variation.py", "            + conv_b**2 * sin(conv_alpha) ** 2 / conv_a**2", "            + (conv_b * sin(conv_alpha)) ** 2 / conv_a / conv_a\n            - 2 * (1 if conv_b < conv_a else 0) * 0.05 * cos(conv_alpha)")],
  "a base-centred monoclinic cell with b < a near the boundary", "MCLC3 and MCLC5 are decided by a wrong expression for b < a",
"""
from math import cos, sin, radians
from wulfric.crystal._sc_variation import _MCLC_variation as f
for a, b, c, al in ((1.2, 1.0, 0.9, 60.0), (1.3, 1.0, 0.55, 45.0), (1.0, 1.2, 1.9, 70.0), (1.5, 1.4, 1.0, 80.0), (1.5, 1.4, 4.0, 75.0), (1.5, 1.4, 2.4, 75.0)):
    e = b * cos(radians(al)) / c + b**2 * sin(radians(al)) ** 2 / a**2
    check(f(a, b, c, al, 80.0) == ("MCLC3" if e < 1 else "MCLC5"), (a, b, c, al, e))
""")
P("c17-prefix", "C17", [("crystal/_atoms.py", "        if trial_species.lower() in name.lower():", '        if trial_species.lower() in name.lower().split("_")[0]:')],
  "a name with an underscore before the species", "the species is not found after an underscore",
"""
import warnings; warnings.simplefilter("ignore")
from wulfric.crystal import get_atom_species as f
check(f("Cr_1") == "Cr" and f("Fe12") == "Fe"); check(f("1_Cr") == "Cr"); check(f("_Br") == "Br")
""")
P("c17-case", "C17", [("crystal/_atoms.py", "    names_are_not_unique = not len(unique_names) == len(set(unique_names))", "    names_are_not_unique = not len(unique_names) == len(\n        set([name.lower() for name in unique_names])\n    )")],
  "names that differ only by the case of letters", "unique names are changed",
"""
from wulfric.crystal import get_unique_names as f
check(f(dict(names=["Cr1", "Cr2"])) == ["Cr1", "Cr2"]); check(f(dict(names=["Co", "CO"])) == ["Co", "CO"])
""")
P("c17-two-break", "C17", [("crystal/_atoms.py", "            if len(atom_species) == 2:\n                break", "            if len(atom_species) == 2 and name.lower().startswith(\n                atom_species.lower()\n            ):\n                break")],
  "a name with a two-letter species that is not at its beginning", "a one-letter species or a later one replaces the species that was found",
"""
import warnings; warnings.simplefilter("ignore")
from wulfric.crystal import get_atom_species as f
check(f("Cr1") == "Cr" and f("Sea") == "Se"); check(f("1Se") == "Se"); check(f("xNi") == "Ni"); check(f("0Si") == "Si"); check(f("1Fe") == "Fe")
check(f("2Cu") == "Cu")
""")
P("c20-orcf3", "C20", [("cell/_sc_examples.py", "        cell = SC_ORCF(PI, 5 / 4 * PI, 5 / 3 * PI)", "        cell = SC_ORCF(PI, 1.25 * PI, 1.6667 * PI)")],
  "the example of ORCF3", "the equality 1/a^2 = 1/b^2 + 1/c^2 of the variation does not hold to the working precision",
"""
from wulfric.cell import sc_get_example
c = sc_get_example("ORCF3")
a, b, k = [np.sqrt(x) for x in (2 * (c[1] @ c[1] + c[2] @ c[2] - c[0] @ c[0]), 2 * (c[0] @ c[0] + c[2] @ c[2] - c[1] @ c[1]), 2 * (c[0] @ c[0] + c[1] @ c[1] - c[2] @ c[2]))]
check(abs(1 / a**2 - 1 / b**2 - 1 / k**2) < 1e-8, abs(1 / a**2 - 1 / b**2 - 1 / k**2))
""")
P("c20-rhl-obtuse", "C20", [("cell/_sc_examples.py", "def SC_RHL(a: float, alpha: float):", "def SC_RHL(a: float, alpha: float):\n    alpha = min(alpha, 180 - alpha)", )],
  "a rhombohedral cell with an obtuse angle", "the angle of the cell is 180 - alpha",
"""
from wulfric.cell import SC_RHL, get_params
for al in (40.0, 70.0, 89.0, 100.0, 110.0):
    check(np.allclose(get_params(SC_RHL(2.0, al)), (2, 2, 2, al, al, al)), al)
""")
P("c13-copy", "C13", [("_kpoints_class.py", "        return deepcopy(self)", "        new = Kpoints(rcell=self.rcell, path=[], n=self._n)\n        new.hs_names = list(self.hs_names)\n        new.hs_coordinates = dict(self.hs_coordinates)\n        new.hs_labels = dict(self.hs_labels)\n        new._path = list(self._path)\n        new.rcell = self.rcell\n        return new")],
  "a point of the copy that is changed in place", "the copy shares the arrays with the original",
"""
k = wulfric.Kpoints(np.eye(3), [[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0]], ["G", "X", "M"])
c = k.copy()
check(c.path == k.path and np.allclose(c.points(), k.points()))
before = k.points(); lists = [list(s) for s in k.path]
c.hs_coordinates["X"] += 0.25
c.path[0].append("G")
check(np.allclose(before, k.points()) if len(before) == len(k.points()) else False); check(lists == k.path)
""")
P("c13-cached", "C13", [("_kpoints_class.py", "        if relative:\n            cell = np.eye(3)\n        else:\n            cell = self.rcell\n\n        ticks = []", "        key = (relative, self.path_string, len(self.hs_names))\n        if key == getattr(self, \"_ticks_key\", None):\n            return self._ticks.copy()\n\n        if relative:\n            cell = np.eye(3)\n        else:\n            cell = self.rcell\n\n        ticks = []"),
   ("_kpoints_class.py", "        return np.array(ticks)", "        self._ticks_key, self._ticks = key, np.array(ticks)\n        return self._ticks.copy()")],
  "ticks asked for, a point removed and added again somewhere else, the path set again, ticks asked for again", "ticks of the old point",
"""
k = wulfric.Kpoints(np.eye(3), [[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0]], ["G", "X", "M"])
p = k.path_string
check(np.allclose(k.ticks(), [0, 0.5, 1.0]))
k.remove_hs_point("M"); k.add_hs_point("M", [0.5, 1.5, 0]); k.path = p
check(np.allclose(k.ticks(), [0, 0.5, 2.0]), k.ticks())
""")
P("c13-setter-half", "C13", [("_kpoints_class.py", "                subpath = [str(name) for name in subpath]\n                new_path.append(subpath)", "                subpath = [str(name) for name in subpath]\n                new_path.append(subpath)\n                self._path = new_path")],
  "a path with an unknown point that is refused", "the refused path stays",
"""
k = wulfric.Kpoints(np.eye(3), [[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0]], ["G", "X", "M"], path="G-X-M")
for bad in ([["G", "Q"]], "G-Q", [["G", "X"], ["M", "W"]]):
    try:
        k.path = bad
        check(False)
    except ValueError:
        pass
    check(k.path == [["G", "X", "M"]], k.path)
""")
P("c14-sort-positions", "C14", [("io/_vasp.py", "    atoms_list = sorted(atoms_list, key=lambda x: x[0])", "    atoms_list = sorted(atoms_list, key=lambda x: (x[0], tuple(x[1])))")],
  "two atoms of one species, not in the order of their positions", "the order of the atoms of a species changes",
"""
import io
from wulfric.io import dump_poscar, load_poscar
f = tempfile.NamedTemporaryFile(delete=False).name
p = [[0.5, 0.5, 0.5], [0.1, 0, 0], [0.25, 0.25, 0.25]]
dump_poscar(np.eye(3) * 3, dict(names=["Fe", "Fe", "O"], positions=np.array(p)), file_object=io.StringIO()) if False else None
class S(io.StringIO): pass
s = io.StringIO()
dump_poscar(np.eye(3) * 3, dict(names=["Fe", "Fe", "O"], positions=np.array(p)), file_object=s)
s.seek(0)
c, a, _ = load_poscar(s)
os.unlink(f)
check(np.allclose(a["positions"], p), a["positions"])
""")
P("c14-decimals-zero", "C14", [("io/_vasp.py", "    cell = np.array(cell, dtype=float)", "    cell = np.array(cell, dtype=float)\n    cell[np.abs(cell) < 1e-5] = 0.0")],
  "a cell with components smaller than 1e-5 and enough decimals", "small components of the cell are lost",
"""
import io
from wulfric.io import dump_poscar, load_poscar
for eps in (0.0, 3e-4, 4e-6):
    s = io.StringIO()
    m = np.array([[3, eps, 0], [0, 3, 0], [0, 0, 4.0]])
    dump_poscar(m, dict(names=["Fe"], positions=np.array([[0.1, 0.2, 0.3]])), file_object=s, decimals=8); s.seek(0)
    check(np.allclose(load_poscar(s)[0], m, atol=1e-8, rtol=0), eps)
""")
P("c16-case", "C16", [("_spglib_interface.py", "enumerate(sorted(list(set(identifiers))))", "enumerate(\n                sorted(list(set(name.lower() for name in identifiers)))\n            )"),
   ("_spglib_interface.py", "        spglib_types = [mapping[name] for name in identifiers]", "        spglib_types = [mapping[name.lower()] for name in identifiers]")],
  "two unknown names that differ by the case only", "different atoms get the same type",
"""
import warnings; warnings.simplefilter("ignore")
from wulfric import get_spglib_types as f
check(f(dict(names=["Cr1", "Br1", "Cr2"], positions=np.zeros((3, 3)))) == [2, 1, 2])
t = f(dict(names=["a1", "A1"], positions=np.zeros((2, 3))))
check(len(set(t)) == 2, t)
""")
P("c16-first-order", "C16", [("_spglib_interface.py", "sorted(list(set(identifiers)))", "dict.fromkeys(identifiers)")],
  "species that do not come in alphabetical order, or data of a crystal with reordered atoms", "types depend on the order of the atoms",
"""
from wulfric import get_spglib_types as f
z = lambda n: np.zeros((n, 3))
check(f(dict(species=["Br", "Cr"], positions=z(2))) == [1, 2])
check(f(dict(species=["O", "Fe", "O"], positions=z(3))) == [2, 1, 2])
""")
P("c18-same-atom", "C18", [("crystal/_basic_manipulation.py", "    return float(\n        np.linalg.norm(", "    if atom1 == atom2:\n        return 0.0\n\n    return float(\n        np.linalg.norm(")],
  "the distance between an atom and its own image in another cell", "zero instead of the length of the lattice vector",
"""
from wulfric.crystal import get_distance as f
c = np.diag([3.0, 4, 5]); a = dict(names=["A", "B"], positions=np.array([[0, 0, 0], [0.5, 0.5, 0.5]]))
check(f(c, a, 0, 0) == 0); check(abs(f(c, a, 0, 1) - np.sqrt(50) / 2) < 1e-9); check(abs(f(c, a, 1, 1, R=(1, 0, 0)) - 3) < 1e-9)
""")
P("c19-range", "C19", [("cell/_voronoi.py", "    n = 10\n", "    n = 2\n")],
  "a very skewed cell", "faces of the cell that belong to far lattice points are missing",
"""
from wulfric.cell import get_wigner_seitz_cell as f
from scipy.spatial import ConvexHull
for m in (np.eye(3), np.array([[1.0, 0, 0], [4.9, 1, 0], [0, 0, 1]]), np.array([[1.0, 0, 0], [0, 1, 0], [3.8, 4.8, 1]])):
    v, e = f(m)
    check(abs(ConvexHull(v).volume - abs(np.linalg.det(m))) < 1e-6)
""")
P("c21-clip", "C21", [("geometry/_geometry.py", "np.arccos(np.clip(np.dot(v1, v2), -1.0, 1.0))", "np.arccos(min(np.dot(v1, v2), 1.0))")],
  "antiparallel vectors whose normalised product is below -1 by rounding", "the angle is nan",
"""
import warnings; warnings.simplefilter("ignore")
from wulfric.geometry import get_angle as f
rng = np.random.default_rng(0)
for v in rng.normal(size=(300, 3)):
    check(abs(f(v, 2 * v)) < 1e-4); check(abs(f(v, -3 * v) - 180) < 1e-4, v)
""")
P("c21-zero-azimuth", "C21", [("geometry/_geometry.py", ">= 0:\n            pass", "> 0:\n            pass")],
  "a vector in the plane of the polar axis and the radial line", "the azimuthal angle is 360 degrees instead of 0",
"""
from wulfric.geometry import get_spherical as f
check(np.allclose(f([1, 0, 0]), (1, 90, 0)), f([1, 0, 0])); check(np.allclose(f([1.0, 0, 1.0])[1:], (45, 0)), f([1.0, 0, 1.0]))
check(np.allclose(f([0, 1, 0]), (1, 90, 90))); check(np.allclose(f([0, -1, 0]), (1, 90, 270)))
""")
P("c15-element-zero", "C15", [("crystal/_crystal_validation.py", "            if element < 1:", "            if element < 0:")],
  "a type that is exactly 0", "the type 0 is accepted",
"""
from wulfric.crystal import validate_atoms as f
check(f(dict(spglib_types=[1, 2]), raise_errors=False)); check(not f(dict(spglib_types=[1, -1]), raise_errors=False)); check(not f(dict(spglib_types=[1, 0]), raise_errors=False))
""")
P("c15-x-lower", "C15", [("crystal/_crystal_validation.py", 'if element != "X" and element not in ATOM_SPECIES:', 'if element.capitalize() != "X" and element.capitalize() not in ATOM_SPECIES:')],
  "species in lower case", "species that are not in the table are accepted",
"""
from wulfric.crystal import validate_atoms as f
check(f(dict(species=["X", "Cr"]), raise_errors=False)); check(not f(dict(species=["cr"]), raise_errors=False)); check(not f(dict(species=["CR"]), raise_errors=False))
""")
P("c23-bct2-zeta", "C23", [("kpoints/_hpkot_points.py", "    eta = (1 + (a / c) ** 2) / 4\n    zeta = ((a / c) ** 2) / 2\n", "    eta = (1 + (a / c) ** 2) / 4\n    zeta = eta - 1 / 4\n")],
  "a body-centred tetragonal crystal with c > a", "points R and G are not on the edge of the Brillouin zone",
"""
from wulfric.kpoints._hpkot_points import _get_points_table_74 as f
a, c = 3.0, 5.0
p = f(a, c)
check(np.allclose(p["R"], [-(a / c) ** 2 / 2, (a / c) ** 2 / 2, 0.5])); check(np.allclose(p["G"], [0.5, 0.5, -(a / c) ** 2 / 2]))
""")
P("c06-last-wins", "C06", [("crystal/_conventional.py", "    for key in atoms:\n        if key != \"positions\":\n            conv_atoms[key] = []", "    for key in atoms:\n        if key != \"positions\" and len(set(map(str, atoms[key]))) == 1:\n            conv_atoms[key] = [atoms[key][0]] * len(spglib_data.conventional_types)\n        elif key != \"positions\":\n            conv_atoms[key] = []")],
  "a rhombohedral crystal in the SC convention with a key that has one value", "there are more values than atoms (three times as many)",
"""
a, al = 4.0, 1.0
from wulfric.cell import SC_RHL
cell = SC_RHL(4.0, 70.0)
atoms = dict(names=["Fe", "Fe"], positions=np.array([[0.21, 0.21, 0.21], [0.79, 0.79, 0.79]]))
for conv in ("SC", "HPKOT"):
    c, x = wulfric.crystal.get_conventional(cell, atoms, convention=conv)
    check(len(x["names"]) == len(x["positions"]) == len(x["spglib_types"]), conv)
""")
P("c11-points-alias", "C11", [("kpoints/_path_and_points.py", '        not INVERSION_SYMMETRY[spglib_data.space_group_number]\n', '        lattice_type != "aP" and not INVERSION_SYMMETRY[spglib_data.space_group_number]\n')],
  "a triclinic crystal without inversion, time reversal switched off", "the points of the other half are missing",
"""
cell = np.array([[3.0, 0, 0], [0.4, 4, 0], [0.3, 0.8, 5]])
atoms = dict(names=["Fe", "O", "Cr"], positions=np.array([[0.0, 0, 0], [0.23, 0.31, 0.17], [0.41, 0.13, 0.37]]))
p, h = wulfric.kpoints.get_path_and_points(cell, atoms, with_time_reversal=False)
check(any(k.endswith("_P") for k in h), p)
""")
P("c22-private", "C22", [("_syntactic_sugar.py", "    for key in dictionary:\n        candy[key] = dictionary[key]", "    for key in dictionary:\n        if not str(key).startswith(\"_\"):\n            candy[key] = dictionary[key]")],
  "a key that starts with an underscore", "the key is lost",
"""
from wulfric import add_sugar, remove_sugar
d = {"a": 1, "_b": 2, 3: 4}
check(remove_sugar(add_sugar({"a": 1})) == {"a": 1}); check(remove_sugar(add_sugar(d)) == d)
""")
P("c12-gamma", "C12", [("kpoints/_path_and_points.py", '        subpath_as_list = subpath_as_str.split("-")', '        subpath_as_list = subpath_as_str.replace("--", "-").split("-")')],
  "a path with an empty name between two dashes", "the list is shorter than the text says and the text is not obtained back",
"""
from wulfric.kpoints import get_path_as_list as l, get_path_as_string as s
check(s(l("A-B|C-D-E")) == "A-B|C-D-E"); check(l("A--B") == [["A", "", "B"]], l("A--B")); check(s(l("A--B")) == "A--B")
""")
P("c08-type-of-index", "C08", [("crystal/_primitive.py", "index for index, type_index in enumerate(spglib_data.original_types)", "index for index, type_index in enumerate(\n            dict.fromkeys(spglib_data.original_types)\n        )")],
  "atoms of which an earlier type comes several times", "values of additional keys belong to another atom",
"""
cell = np.diag([3.0, 3.0, 4.0])
atoms = dict(names=["Fe1", "Fe2", "O1"], positions=np.array([[0, 0, 0], [0.5, 0.5, 0.5], [0.5, 0.5, 0.1]]), species=["Fe", "Fe", "O"], mark=[1, 1, 2])
for conv in ("HPKOT", "SC", "spglib"):
    c, x = wulfric.crystal.get_primitive(cell, atoms, convention=conv)
    check(sorted(x["mark"]) == [1, 1, 2] and sorted(x["species"]) == ["Fe", "Fe", "O"], (conv, x["mark"]))
""")
P("c07-oc-tolerance", "C07", [("crystal/_conventional.py", "    a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)\n\n    if a <= b:", "    a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)\n\n    if cwt(a, \"<=\", b, eps=1e-2):")],
  "a base-centred orthorhombic crystal with a - b below 0.01", "a > b in the conventional cell",
"""
from wulfric.crystal._conventional import _sc_get_conventional_oC as f
for a, b in ((3.0, 4.0), (4.0, 3.0), (3.005, 3.0)):
    c = f(np.diag([a, b, 5.0])); check(np.linalg.norm(c[0]) <= np.linalg.norm(c[1]) + 1e-9, (a, b))
""")
P("c05-sorted-output", "C05", [("cell/_niggli.py", "    return trans_matrix.T @ cell", "    reduced = trans_matrix.T @ cell\n    return reduced[np.argsort(np.round(np.linalg.norm(reduced, axis=1), 3), kind=\"stable\")]")],
  "a reduced cell with two lengths that differ by less than 0.001 or with rounding ties", "the cell is left as it is or gets another handedness",
"""
from wulfric.cell import get_niggli
rng = np.random.default_rng(1)
for i in range(40):
    m = np.round(rng.uniform(-2, 2, (3, 3)), 1) * 1e-3 if i % 2 else np.round(rng.uniform(-2, 2, (3, 3)), 1)
    if abs(np.linalg.det(m)) < 0.05 * (1e-9 if i % 2 else 1):
        continue
    r = get_niggli(m, implementation="wulfric")
    n = np.linalg.norm(r, axis=1)
    s = np.linalg.norm(get_niggli(m, implementation="spglib"), axis=1)
    check(np.allclose(n, s, rtol=1e-4), (m, n, s)); check(np.linalg.det(r) * np.linalg.det(m) > 0)
    T = np.round(r @ np.linalg.inv(m)); check(np.allclose(T @ m, r))
""")
P("c03-order", "C03", [("geometry/_geometry.py", '            alpha + beta, "<", 360.0 - gamma, eps=angle_tolerance\n', '            alpha + beta + gamma, "<", 360.0\n')],
  "a sum of angles just below 360 degrees and a small tolerance", "another tolerance is used for the sum",
"""
from wulfric.geometry import parallelepiped_check as p
check(p(1, 1, 1, 90, 90, 90) and not p(1, 1, 1, 120, 120, 120))
check(p(1, 1, 1, 119.999, 119.9995, 120.0)); check(not p(1, 1, 1, 119.0, 119.0, 119.0, angle_tolerance=5.0))
""")
P("c01-nan", "C01", [("_numerical.py", "        eps = atol + rtol * abs(y)\n\n", "        eps = max(atol, rtol * abs(y))\n\n")],
  "values whose difference is between the larger and the sum of the two tolerances", "the default tolerance is not atol + rtol * |y|",
"""
from wulfric import compare_with_tolerance as c
check(c(1.0, "==", 1.0 + 1e-6)); check(c(1.0, "==", 1.0 + 1.0005e-5)); check(not c(1.0, "==", 1.0 + 1.1e-5))
""")
P("c10-obverse", "C10", [("constants/_sc_convention.py", '"TRI"', '"TRI"')], "", "", "")
SPECS.pop()
P("c02-list", "C02", [("cell/_basic_manipulation.py", "        get_angle(cell[0], cell[2]),", "        get_angle(cell[2], np.subtract(cell[0], 0) if np.dot(cell[0], cell[2]) >= 0 else cell[0]) if cell[0][2] <= cell[2][2] else get_angle(cell[0], np.abs(cell[2])),")],
  "a cell whose first vector has a larger third component than the third vector, which has a negative component", "beta is wrong",
"""
from wulfric.cell import get_params as p
from wulfric.geometry import get_angle as g
for c in (np.eye(3), np.array([[1, 0, 2.0], [0, 3, 0], [-1, 0.5, 1]])):
    check(np.allclose(p(c)[3:], (g(c[1], c[2]), g(c[0], c[2]), g(c[0], c[1]))))
""")
