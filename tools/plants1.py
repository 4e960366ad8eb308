PRE = """
import sys, os, tempfile
import numpy as np, wulfric
def check(c, m=""):
    if not c:
        print("FAILED", m); sys.exit(1)
"""
SPECS = []
def P(id, property, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))

P("c01-zero-eps", "C01", [("_numerical.py", "    if eps is None:", "    if not eps:")],
  "eps given as exactly 0", "eps=0 is replaced by the default tolerance, so two different numbers compare as equal with zero tolerance",
"""
from wulfric import compare_with_tolerance as c
check(c(1.0, "<", 1.0 + 1e-9, eps=0) and not c(1.0, "==", 1.0 + 1e-9, eps=0))
check(c(1.0, "==", 1.0 + 1e-9) and c(2, "<", 3) and not c(0.0, ">", 0.0, eps=0.0))
""")
P("c02-flat-cell", "C02", [("geometry/_geometry.py", "    return float(abs(np.linalg.det(cell)))", "    if len(args) == 3:\n        return float(np.dot(cell[0], np.cross(cell[1], cell[2])))\n    return float(abs(np.linalg.det(cell)))")],
  "three vectors given in a left-handed order", "volume is negative",
"""
v = ([1.0, 0, 0.3], [0.2, 2, 0], [0, 0.4, 3])
from wulfric.geometry import get_volume as g
check(abs(g(*v) - g(v)) < 1e-9); check(abs(g(v[1], v[0], v[2]) - g(v)) < 1e-9)
""")
P("c04-left-handed", "C04", [("cell/_basic_manipulation.py", "    return 2 * PI * np.linalg.inv(cell).T", "    a1, a2, a3 = np.array(cell, dtype=float)\n    volume = abs(a1 @ np.cross(a2, a3))\n    return 2 * PI / volume * np.array([np.cross(a2, a3), np.cross(a3, a1), np.cross(a1, a2)])")],
  "a left-handed cell", "reciprocal vectors of left-handed cells have the wrong sign",
"""
m = np.array([[0, 2.0, 0.1], [1.5, 0, 0], [0.2, 0, 3]])
check(np.linalg.det(m) < 0)
for c in (m, m[[1, 0, 2]]):
    check(np.allclose(c @ wulfric.cell.get_reciprocal(c).T, 2 * np.pi * np.eye(3)))
""")
P("c03-angle-sum", "C03", [("geometry/_geometry.py", 'compare_with_tolerance(alpha, "<", beta + gamma, eps=angle_tolerance)\n        and', 'compare_with_tolerance(alpha, "<=", beta + gamma, eps=angle_tolerance)\n        and')],
  "alpha equal to beta + gamma within the tolerance", "flat parallelepipeds are accepted",
"""
from wulfric.geometry import parallelepiped_check as p
check(not p(1, 1, 1, 120.0, 120.0, 120.0)); check(p(1, 1, 1, 100.0, 120.0, 120.0))
check(not p(1, 1, 1, 100.0, 60.0, 40.0)); check(not p(1, 1, 1, 100.0, 60.0, 39.0))
""")
P("c05-step5-sign", "C05", [("cell/_niggli.py", '''            compare_with_tolerance(xi, "==", B, eps=eps)
            and compare_with_tolerance(2 * eta, "<", zeta, eps=eps)''', '''            compare_with_tolerance(xi, "==", B, eps=eps)
            and compare_with_tolerance(2 * zeta, "<", eta, eps=eps)''')],
  "a cell whose reduction meets the boundary 2 b.c = b.b", "the own implementation does not reduce boundary cells to the same metric as spglib",
"""
# scan quadratic forms with small integers (most of them have accidental equalities)
import itertools
from wulfric.cell import get_niggli
n = 0
for A, B, C, x, y, z in itertools.product((4, 6), (4, 6), (6, 8), (-3, -2, 0, 2, 3), (-2, 0, 1, 2), (-2, 0, 1, 2)):
    g = np.array([[A, z, y], [z, B, x], [y, x, C]], float)
    if np.linalg.eigvalsh(g)[0] < 0.3:
        continue
    m = np.linalg.cholesky(g)
    n += 1
    a = get_niggli(m, implementation="wulfric"); b = get_niggli(m, implementation="spglib")
    check(np.allclose(a @ a.T, b @ b.T, atol=1e-3), (A, B, C, x, y, z))
check(n > 100)
""")
P("c05-max-iterations", "C05", [("cell/_niggli.py", "        if iter_count > max_iterations:\n            raise NiggliReductionFailed(max_iterations=max_iterations)", "        if iter_count > max_iterations:\n            if max_iterations < 1:\n                raise NiggliReductionFailed(max_iterations=max_iterations)\n            break")],
  "more iterations needed than allowed", "an unreduced cell is returned instead of raising",
"""
from wulfric.cell import get_niggli
m = np.array([[1.0, 0, 0], [7.3, 1.1, 0], [5.2, 9.1, 1.3]])
full = get_niggli(m, implementation="wulfric")
for k in range(1, 12):
    try:
        r = get_niggli(m, implementation="wulfric", max_iterations=k)
    except Exception:
        continue
    check(np.allclose(r @ r.T, full @ full.T, atol=1e-6), k)
""")
P("c06-first-atom-value", "C06", [("crystal/_conventional.py", """        type_index: index for index, type_index in enumerate(spglib_data.original_types)
    }""", """        type_index: list(spglib_data.original_types).index(type_index)
        for type_index in spglib_data.original_types
    }""")],
  "two atoms of one type with different values of an additional key", "values are taken from the first atom of the type",
"""
cell = np.diag([3.0, 4.0, 5.0])
atoms = dict(positions=[[0, 0, 0], [0.5, 0.3, 0.1], [0.1, 0.6, 0.7]], species=["Fe", "O", "O"], spin=[1, 2, 3])
_, a = wulfric.crystal.get_conventional(cell, atoms)
check(len(a["spin"]) == 3 and all(s == (1 if e == "Fe" else 3) for s, e in zip(a["spin"], a["species"])), a)
""")
P("c07-hpkot-triclinic-dot", "C07", [("crystal/_conventional.py", "    dot_ab = abs(r_cell_step_1[0] @ r_cell_step_1[1])", "    dot_ab = r_cell_step_1[0] @ r_cell_step_1[1]")],
  "a triclinic crystal with an obtuse reduced reciprocal cell", "|a* . b*| is not the smallest product",
"""
rng = np.random.default_rng(3)
n = 0
for _ in range(40):
    p = (*rng.uniform(3, 8, size=3), *rng.uniform(65, 115, size=3))
    try:
        cell = wulfric.cell.from_params(*p)
    except ValueError:
        continue
    c, _ = wulfric.crystal.get_conventional(cell, dict(positions=[[0, 0, 0]], species=["Fe"]))
    r = wulfric.cell.get_reciprocal(c)
    d = abs(r[0] @ r[1]), abs(r[0] @ r[2]), abs(r[1] @ r[2])
    check(d[0] <= min(d) + 1e-6, d)
    n += 1
check(n > 10)
""")
P("c08-rounding", "C08", [("crystal/_primitive.py", "    non_unique_positions = np.round(non_unique_positions, decimals=8)", "    non_unique_positions = np.round(non_unique_positions, decimals=5)")],
  "atoms at positions that are not multiples of 1e-5", "positions of the primitive cell are rounded to five digits",
"""
cell = np.diag([4.0, 5.0, 6.0])
atoms = dict(positions=[[0, 0, 0], [0.123456, 0.333337, 0.271828]], species=["Fe", "O"])
c, a = wulfric.crystal.get_primitive(cell, atoms)
d = np.array(a["positions"]) @ c
e = np.array(atoms["positions"]) @ cell
v = (d[a["species"].index("O")] - d[a["species"].index("Fe")]) @ np.linalg.inv(cell) 
w = np.array(atoms["positions"])[1]
x = np.minimum(np.abs(v - w - np.round(v - w)).max(), np.abs(v + w - np.round(v + w)).max())
check(x < 1e-7, x)
""")
P("c09-mc-boundary", "C09", [("crystal/_hpkot_extended_bl_symbol.py", "                -a * cos(beta * TORADIANS) / c + ((a", "                a * cos(beta * TORADIANS) / c + ((a")],
  "base-centred monoclinic cell with b > a sin(beta) between the two conditions", "mC2 and mC3 are mixed up",
"""
import itertools
from math import cos, sin, radians
n = set()
for a, c, be in itertools.product((5.0, 6.0, 7.0, 9.0), (3.0, 4.5, 8.0), (95.0, 105.0, 125.0)):
    for b in (a * 0.6, a * 0.9, a * 1.3):
        conv = np.array([[a, 0, 0], [0, b, 0], [c * cos(radians(be)), 0, c * sin(radians(be))]])
        P_ = np.array([[0.5, -0.5, 0], [0.5, 0.5, 0], [0, 0, 1]])
        cell = P_ @ conv
        atoms = dict(positions=[[0, 0, 0]], species=["Fe"])
        d = wulfric.get_spglib_data(cell, atoms)
        if d.crystal_family + d.centring_type != "mC":
            continue
        s = wulfric.crystal.hpkot_get_extended_bl_symbol(cell, atoms)
        A, B, C, _, be2, _ = wulfric.cell.get_params(wulfric.crystal.get_conventional(cell, atoms)[0])
        si, co = sin(radians(be2)), cos(radians(be2))
        e = "mC1" if B < A * si else "mC2" if -A * co / C + (A * si / B) ** 2 < 1 else "mC3"
        n.add(e)
        check(s == e, (s, e, A, B, C, be2))
check(len(n) == 3, n)
""")
P("c11-gamma-p", "C11", [("kpoints/_path_and_points.py", "        points = list(hs_points)\n        for point in points:\n            if point != \"GAMMA\":", "        points = list(hs_points)\n        for point in points:\n            if not np.allclose(hs_points[point] % 1, -hs_points[point] % 1):")],
  "crystal without inversion, time reversal switched off, relative points at the boundary that are equivalent to their inverse", "the extended path names points which are not returned",
"""
cell = wulfric.cell.from_params(4, 5, 6, 90, 90, 90)
atoms = dict(positions=[[0, 0, 0], [0.1, 0.2, 0.3], [0.4, 0.15, 0.62]], species=["Fe", "O", "N"])
for tr in (True, False):
    path, pts = wulfric.kpoints.get_path_and_points(cell, atoms, with_time_reversal=tr)
    for sp in path.split("|"):
        for q in sp.split("-"):
            check(q in pts, q)
    if not tr:
        for q in list(pts):
            if not q.endswith("_P") and q != "GAMMA":
                check(np.allclose(pts[q + "_P"], -pts[q]))
""")
P("c12-strip", "C12", [("kpoints/_path_and_points.py", '''        subpath_as_list = subpath_as_str.split("-")''', '''        subpath_as_list = subpath_as_str.replace("--", "-").split("-")''')],
  "a path with an empty point name", "a subpath 'A--B' loses a point",
"""
f, g = wulfric.kpoints.get_path_as_list, wulfric.kpoints.get_path_as_string
for t in ("A-B|C-D-E", "A--B", "GAMMA-X|Y-Z"):
    check(g(f(t)) == t, t)
""")
P("c13-flat-jump", "C13", [("_kpoints_class.py", '''                if s_i == 0 and i == 0:
                    flat_points = delta''', '''                if flat_points is None or flat_points[-1] == 0:
                    flat_points = delta''')],
  "a path that starts with a segment of zero length", "points of the first segment vanish from flat_points",
"""
k = wulfric.Kpoints(np.eye(3), coordinates=[[0, 0, 0], [0, 0, 0], [0.5, 0, 0]], names=["A", "B", "C"], path="A-B-C", n=3)
check(k.flat_points().shape == (10,) and len(k.points()) == 10)
k.path = "A-C-B|C-A"
check(k.flat_points().shape == (15,) and np.allclose(k.flat_points()[-1], k.ticks()[-1]))
""")
P("c14-no-space", "C14", [("io/_vasp.py", '''            file_object.write(
                f"{cell[vector_index][component_index]:{decimals + 5}.{decimals}f} "
            )''', '''            file_object.write(
                f"{cell[vector_index][component_index]:{decimals + 5}.{decimals}f}"
            )''')],
  "a component of the cell with four digits before the point (or three and a minus)", "numbers of the cell run together",
"""
import io
def trip(cell):
    atoms = dict(positions=[[0, 0, 0]], species=["Fe"])
    f = io.StringIO(); wulfric.io.dump_poscar(cell, atoms, f); f.seek(0)
    return wulfric.io.load_poscar(f)[0]
for c in (np.eye(3) * 3, np.array([[5.0, 0, 0], [-120.5, 130, 0], [1, -2345.5, 60]])):
    try:
        r = trip(c)
    except Exception as e:
        check(False, e)
    check(np.allclose(r, c))
""")
P("c15-positions-shape", "C15", [("crystal/_crystal_validation.py", "        if len(shape) != 2 or shape[1] != 3:", "        if len(shape) < 2 or shape[1] != 3:")],
  "positions with three dimensions (N, 3, M)", "positions of a wrong shape are accepted",
"""
v = wulfric.crystal.validate_atoms
check(v(dict(positions=np.zeros((2, 3))), raise_errors=False))
check(not v(dict(positions=np.zeros((2, 3, 1))), raise_errors=False))
check(not v(dict(positions=np.zeros((2, 2))), raise_errors=False))
""")
P("c16-unknown-names", "C16", [("_spglib_interface.py", '''atoms["names"][i] if identifier == "X" else identifier''', '''atoms["names"][i] if identifier == "X" and len(set(identifiers)) == 1 else identifier''')],
  "names of which some can not be deduced, mixed with known species", "different unknown atoms get the same type",
"""
t = wulfric.get_spglib_types(dict(names=["Q1", "Q2", "Fe1"]))
check(len(set(t)) == 3, t)
t = wulfric.get_spglib_types(dict(names=["Q1", "Q2"])); check(len(set(t)) == 2, t)
""")
P("c17-first-one-letter", "C17", [("crystal/_atoms.py", "            if len(atom_species) == 2:\n                break", "            break")],
  "a name in which a one-letter species stands before the two-letter one in the table", "one-letter species win over two-letter ones",
"""
g = wulfric.crystal.get_atom_species
check(g("Cr1") == "Cr" and g("Fe") == "Fe" and g("Br2") == "Br" and g("Hg") == "Hg" and g("oh") == "O", [g("Cr1"), g("Br2"), g("Hg"), g("oh")])
""")
P("c18-shift-cartesian", "C18", [("crystal/_basic_manipulation.py", "gravity_point = gravity_point @ np.linalg.inv(cell)", "gravity_point = np.linalg.inv(cell) @ gravity_point")],
  "Cartesian gravity point and a cell that is not symmetric", "atoms are moved to another point",
"""
cell = np.array([[4, 0, 0], [1.0, 5, 0], [0.3, 0.2, 6]])
for c in (np.diag([2.0, 3, 4]), cell):
    a = dict(positions=[np.array([0.1, 0.2, 0.3]), np.array([0.4, 0.9, 0.5])])
    wulfric.crystal.shift_atoms(a, gravity_point=(1, 2, 3), cell=c, gp_is_relative=False)
    p = np.array(a["positions"])
    check(np.allclose((p.min(0) + p.max(0)) / 2 @ c, [1, 2, 3]))
""")
P("c19-range-order", "C19", [("cell/_voronoi.py", '''np.array(np.meshgrid(lp1, lp2, lp3, indexing="ij"))''', '''np.array(np.meshgrid(lp1, lp2, lp3, indexing="ij" if range[0] != range[1] or range[0] == range[2] else "xy"))''')],
  "ranges with n1 == n2", "points are not in the row-major order",
"""
g = wulfric.cell.get_lattice_points
for r in ((1, 1, 1), (2, 1, 3), (2, 2, 0)):
    e = [[i, j, k] for i in range(-r[0], r[0] + 1) for j in range(-r[1], r[1] + 1) for k in range(-r[2], r[2] + 1)]
    check(np.array_equal(g(np.eye(3), range=r, relative=True), e), r)
""")
P("c20-rhlc3", "C20", [("cell/_sc_examples.py", "        c = b * (x**2) / (x**2 - 1) * cos(ralpha) * 1.8", "        c = b * (x**2) / (x**2 - 1) * cos(ralpha) * 1.0")],
  "the example mclc3", "variation of the example is MCLC4",
"""
for n in ("mclc1", "mclc2", "mclc3", "mclc4", "mclc5"):
    c = wulfric.cell.sc_get_example(n)
    v = wulfric.crystal.sc_get_variation(c, dict(positions=[[0, 0, 0]], species=["Fe"]))
    check(v.lower() == n, (v, n))
""")
P("c21-axis-norm", "C21", [("geometry/_geometry.py", "    radial_line_zero = np.array(radial_line_zero) / np.linalg.norm(radial_line_zero)", "    radial_line_zero = np.array(radial_line_zero, dtype=float)")],
  "a zero direction that is not of unit length", "azimuth is computed with a vector that is not normalised",
"""
from wulfric.geometry import get_spherical as g
for z in ([1, 0, 0], [2, 0, 0], [0.5, 0, 0]):
    check(np.allclose(g([1, 1, 1], radial_line_zero=z), (np.sqrt(3), np.degrees(np.arccos(1 / np.sqrt(3))), 45)), z)
""")
P("c22-get-default", "C22", [("_syntactic_sugar.py", "        try:\n            return self[key]\n        except KeyError:\n            raise AttributeError(key)", "        value = self.get(key)\n        if value is None:\n            raise AttributeError(key)\n        return value")],
  "a key with the value None", "a key with the value None can not be read with the dot",
"""
s = wulfric.add_sugar(dict(a=None, b=1))
check(s.b == 1)
try:
    check(s.a is None)
except AttributeError:
    check(False)
""")
P("c23-oi3-h2", "C23", [("kpoints/_hpkot_points.py", '''        "H0": np.array([-mu, 1 / 2 + delta, mu]),
        "H2": np.array([1 / 2 + delta, -mu, 1 / 2 - delta]),''', '''        "H0": np.array([-mu, 1 / 2 + delta, mu]),
        "H2": np.array([1 / 2 - delta, -mu, 1 / 2 + delta]),''')],
  "body-centred orthorhombic crystal with the longest b (oI3)", "point H2 of oI3 has wrong coordinates",
"""
from wulfric.kpoints._hpkot_points import _hpkot_get_points as g
a, b, c = 3.0, 7.0, 5.0
p = g(np.diag([a, b, c]), "oI", "oI3")
d, mu = (a * a - c * c) / 4 / b**2, (a * a + c * c) / 4 / b**2
check(np.allclose(p["H2"], [0.5 + d, -mu, 0.5 - d])); check(np.allclose(p["H0"], [-mu, 0.5 + d, mu]))
""")
P("c10-inversion", "C10", [("constants/_space_groups.py", "    122: False,", "    122: True,")],
  "a crystal with the space group 122", "space group without inversion is marked as centrosymmetric",
"""
import spglib
from wulfric.constants._space_groups import INVERSION_SYMMETRY as I
for h in range(1, 531):
    n = spglib.get_spacegroup_type(h).number
    r = spglib.get_symmetry_from_database(h)["rotations"]
    check(I[n] == any((x == -np.eye(3)).all() for x in r), n)
""")

P("c04-transform", "C04", [("cell/_basic_manipulation.py", "def get_transformation_matrix(original_cell, transformed_cell):", "def _is_diagonal(cell):\n    cell = np.array(cell)\n    return np.allclose(cell, cell.T)\n\n\ndef get_transformation_matrix(original_cell, transformed_cell):"), ("cell/_basic_manipulation.py", "    return 2 * PI * np.linalg.inv(cell).T", "    if _is_diagonal(cell):\n        return 2 * PI * np.linalg.inv(np.diag(np.diag(cell))).T\n    return 2 * PI * np.linalg.inv(cell).T")],
  "a cell with a symmetric matrix that is not diagonal", "the reciprocal of symmetric cells (primitive fcc, bcc) is computed as if they were diagonal",
"""
for c in (np.diag([1, 2, 3]), np.array([[1, 0.2, 0], [0.2, 2, 0.1], [0, 0.1, 3]]), np.array([[2, 1, 0], [0, 1, 0], [0, 0, 1]])):
    check(np.allclose(c @ wulfric.cell.get_reciprocal(c).T, 2 * np.pi * np.eye(3)))
""")
P("c17-lower-first", "C17", [("crystal/_atoms.py", "        if trial_species.lower() in name.lower():", "        if trial_species.lower() in name.lower() and (\n            len(trial_species) == 2 or atom_species == \"X\"\n        ):")],
  "a name with two one-letter species and no two-letter one", "the first instead of the last one-letter species of the table is deduced",
"""
from wulfric.constants import ATOM_SPECIES
g = wulfric.crystal.get_atom_species
def spec(n):
    r = "X"
    for s in ATOM_SPECIES:
        if s.lower() in n.lower():
            r = s
            if len(s) == 2:
                return r
    return r
for n in ("Cr1", "Fe", "O2", "WOV", "H_K", "VW", "KO", "PF1"):
    check(g(n) == spec(n), (n, g(n), spec(n)))
""")
P("c20-rhl", "C20", [("cell/_sc_examples.py", "                a * cos(alpha) / cos(alpha / 2),\n                0,", "                a * cos(alpha) / cos(alpha / 2) if alpha < 1.95 else a * cos(alpha),\n                0,")],
  "rhombohedral cell with alpha above 111.7 degrees", "angles of the example cell are wrong",
"""
for al in (40, 70, 100, 115, 118):
    c = wulfric.cell.SC_RHL(2.0, al)
    check(np.allclose(wulfric.cell.get_params(c), (2, 2, 2, al, al, al)), al)
""")
