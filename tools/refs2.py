# behaviour-preserving rewrites, second batch
R("sugar", [("_syntactic_sugar.py", {"add_sugar": '''
def _check_dict(candidate, what):
    if not isinstance(candidate, dict):
        raise ValueError(f"Failed to {what} sugar: expected a python dict, got {type(candidate)}.")


def add_sugar(dictionary: dict) -> SyntacticSugar:
    _check_dict(dictionary, "add")
    candy = SyntacticSugar()
    for key, value in dictionary.items():
        candy[key] = value
    return candy
''', "remove_sugar": '''
def remove_sugar(candy: dict) -> dict:
    _check_dict(candy, "remove")
    return {key: candy[key] for key in candy}
''', "SyntacticSugar.__getattr__": '''
def __getattr__(self, key):
    if key in self:
        return self[key]
    raise AttributeError(key)
'''})], "C22")
R("types-helper", [("_spglib_interface.py", {"get_spglib_types": '''
def _identifiers(atoms):
    if "species" in atoms:
        return atoms["species"]
    if "names" not in atoms:
        raise ValueError(
            'Expected at least one of "spglib_types", "species" or "names" keys in "atoms", found none.'
        )
    identifiers = []
    for name in atoms["names"]:
        species = get_atom_species(name=name, raise_on_fail=False)
        if species == "X":
            identifiers.append(name)
        else:
            identifiers.append(species)
    return identifiers


def get_spglib_types(atoms):
    validate_atoms(atoms=atoms, raise_errors=True)
    if "spglib_types" in atoms:
        return atoms["spglib_types"]
    identifiers = _identifiers(atoms)
    mapping = {}
    for index, name in enumerate(sorted(set(identifiers)), start=1):
        mapping[name] = index
    return [mapping[name] for name in identifiers]
''', "validate_spglib_data": '''
def validate_spglib_data(cell, atoms, spglib_data) -> None:
    same_cell = np.allclose(cell, spglib_data.original_cell)
    if not same_cell:
        raise ValueError("Validation of spglib_data against cell and atoms: cell mismatch.")
    same_positions = np.allclose(atoms["positions"], spglib_data.original_positions)
    if not same_positions:
        raise ValueError("Validation of spglib_data against cell and atoms: atom's positions mismatch.")
    types = get_spglib_types(atoms=atoms)
    if types != spglib_data.original_types:
        raise ValueError("Validation of spglib_data against cell and atoms: atom's types mismatch.")
'''})], "C16")
R("types-loop", [("_spglib_interface.py", {"get_spglib_types": '''
def get_spglib_types(atoms):
    validate_atoms(atoms=atoms, raise_errors=True)
    if "spglib_types" in atoms:
        return atoms["spglib_types"]
    if "species" in atoms:
        identifiers = atoms["species"]
    elif "names" in atoms:
        names = atoms["names"]
        identifiers = [get_atom_species(name=name, raise_on_fail=False) for name in names]
        for i in range(len(identifiers)):
            if identifiers[i] == "X":
                identifiers[i] = names[i]
    else:
        raise ValueError('Expected "spglib_types", "species" or "names" keys in "atoms", found none.')
    distinct = sorted(set(identifiers))
    mapping = dict(zip(distinct, range(1, len(distinct) + 1)))
    spglib_types = []
    for name in identifiers:
        spglib_types.append(mapping[name])
    return spglib_types
'''})], "C16")
R("path-text", [("kpoints/_path_and_points.py", {"get_path_as_list": '''
def get_path_as_list(path_as_string) -> list:
    if not isinstance(path_as_string, str):
        raise ValueError(f"path_as_string is not a string: {path_as_string}")
    path_as_list = [subpath.split("-") for subpath in path_as_string.split("|")]
    for i, subpath in enumerate(path_as_list):
        if len(subpath) < 2:
            raise ValueError(f"Subpath {i + 1} has less than two points: {subpath}")
    return path_as_list
''', "get_path_as_string": '''
def get_path_as_string(path_as_list) -> str:
    if not isinstance(path_as_list, Iterable):
        raise ValueError(f"path_as_list is not Iterable, can not convert to string:\\n{path_as_list}")
    return "|".join([_join_subpath(i, subpath) for i, subpath in enumerate(path_as_list)])


def _join_subpath(index, subpath):
    if not isinstance(subpath, Iterable):
        raise ValueError(f"Subpath {index + 1} is not Iterable, can not convert to string:\\n{subpath}")
    return "-".join(subpath)
'''})], "C12 C13 C11")
R("path-points", [("kpoints/_path_and_points.py", {"get_path_and_points": '''
def _primed(kpath):
    extra_path = [
        [name if name == "GAMMA" else name + "_P" for name in subpath]
        for subpath in get_path_as_list(path_as_string=kpath)
    ]
    return get_path_as_string(path_as_list=extra_path)


def get_path_and_points(
    cell, atoms, spglib_data=None, convention="HPKOT", with_time_reversal=True, relative=True
):
    cell = np.array(cell, dtype=float)
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        spglib_data = get_spglib_data(cell=cell, atoms=atoms)
    elif isinstance(spglib_data, SpglibData):
        validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    else:
        raise TypeError(f"Expected SpglibData, got {type(spglib_data)}.")

    arguments = dict(cell=cell, atoms=atoms, convention=convention, spglib_data=spglib_data)
    conventional_cell = get_conventional(**arguments)[0]
    primitive_cell = get_primitive(**arguments)[0]
    lattice_type = spglib_data.crystal_family + spglib_data.centring_type

    convention = convention.lower()
    if convention == "hpkot":
        symbol = hpkot_get_extended_bl_symbol(cell=cell, atoms=atoms, spglib_data=spglib_data)
        kpath = HPKOT_DEFAULT_K_PATHS[symbol]
        hs_points = _hpkot_get_points(
            conventional_cell=conventional_cell, lattice_type=lattice_type, extended_bl_symbol=symbol
        )
    elif convention == "sc":
        variation = sc_get_variation(cell=cell, atoms=atoms, spglib_data=spglib_data)
        kpath = SC_DEFAULT_K_PATHS[variation]
        hs_points = _sc_get_points(
            conventional_cell=conventional_cell, lattice_type=lattice_type, lattice_variation=variation
        )
    else:
        raise ConventionNotSupported(convention, supported_conventions=["HPKOT", "SC"])

    to_absolute = get_reciprocal(cell=primitive_cell)
    to_relative = np.linalg.inv(get_reciprocal(cell=cell))
    points = {}
    for name, point in hs_points.items():
        point = point @ to_absolute
        points[name] = point @ to_relative if relative else point

    if with_time_reversal or INVERSION_SYMMETRY[spglib_data.space_group_number]:
        return kpath, points

    for name in list(points):
        if name != "GAMMA":
            points[name + "_P"] = -points[name]
    return kpath + "|" + _primed(kpath), points
'''})], "C11 C23")
R("niggli-loop", [("cell/_niggli.py", {"get_niggli": '''
def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=100000):
    implementation = implementation.lower()
    if implementation == "spglib":
        if spglib is None:
            raise ImportError("spglib is not installed. Please install it with `pip install spglib`")
        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
    if implementation != "wulfric":
        raise ValueError(f"Implementation {implementation} is not supported.")
    volume = get_volume(cell)
    if volume == 0:
        raise ValueError("Cell volume is zero")
    eps = eps_relative * volume ** (1 / 3.0)
    G = np.matmul(cell, np.transpose(cell))
    params = (G[0][0], G[1][1], G[2][2], 2 * G[1][2], 2 * G[0][2], 2 * G[0][1])
    trans_matrix = np.eye(3, dtype=int)
    iter_count = 0
    finished = False
    while not finished:
        if iter_count > max_iterations:
            raise NiggliReductionFailed(max_iterations=max_iterations)
        iter_count += 1
        params, trans_matrix, finished = _niggli_iteration(params, trans_matrix, eps)
    return trans_matrix.T @ cell


def _niggli_iteration(params, trans_matrix, eps):
    _, params, trans_matrix = _niggli_step_1(*params, trans_matrix, eps=eps)
    condition, params, trans_matrix = _niggli_step_2(*params, trans_matrix, eps=eps)
    if condition:
        return params, trans_matrix, False
    _, params, trans_matrix = _niggli_step_3(*params, trans_matrix, eps=eps)
    _, params, trans_matrix = _niggli_step_4(*params, trans_matrix, eps=eps)
    for step in (_niggli_step_5, _niggli_step_6, _niggli_step_7, _niggli_step_8):
        condition, params, trans_matrix = step(*params, trans_matrix, eps=eps)
        if condition:
            return params, trans_matrix, False
    return params, trans_matrix, True
'''})], "C05")
R("niggli-steps", [("cell/_niggli.py", {"_niggli_step_3": '''
def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
    condition = _positive_product(xi, eta, zeta, eps=eps)
    if not condition:
        return condition, (A, B, C, xi, eta, zeta), trans_matrix
    i, j, k = [1 if compare_with_tolerance(x, ">", 0, eps=eps) else -1 for x in (xi, eta, zeta)]
    trans_matrix = trans_matrix @ np.diag([i, j, k])
    return condition, (A, B, C, abs(xi), abs(eta), abs(zeta)), trans_matrix
''', "_niggli_step_5": '''
def _niggli_step_5(A, B, C, xi, eta, zeta, trans_matrix, eps):
    condition = (
        compare_with_tolerance(abs(xi), ">", B, eps=eps)
        or (compare_with_tolerance(xi, "==", B, eps=eps) and compare_with_tolerance(2 * eta, "<", zeta, eps=eps))
        or (compare_with_tolerance(xi, "==", -B, eps=eps) and compare_with_tolerance(zeta, "<", 0, eps=eps))
    )
    if condition:
        sign = np.sign(xi)
        trans_matrix = trans_matrix @ np.array([[1, 0, 0], [0, 1, -sign], [0, 0, 1]], dtype=int)
        C, eta, xi = B + C - abs(xi), eta - sign * zeta, xi - 2 * sign * B
    return condition, (A, B, C, xi, eta, zeta), trans_matrix
''', "_niggli_step_8": '''
def _niggli_step_8(A, B, C, xi, eta, zeta, trans_matrix, eps):
    total = A + B + xi + eta + zeta
    condition = compare_with_tolerance(total, "<", 0, eps=eps)
    if not condition and compare_with_tolerance(total, "==", 0, eps=eps):
        condition = compare_with_tolerance(2 * (A + eta) + zeta, ">", 0, eps=eps)
    if condition:
        trans_matrix = trans_matrix @ np.array([[1, 0, 1], [0, 1, 1], [0, 0, 1]], dtype=int)
        C += total
        xi += 2 * B + zeta
        eta += 2 * A + zeta
    return condition, (A, B, C, xi, eta, zeta), trans_matrix
''', "_positive_product": '''
def _positive_product(xi, eta, zeta, eps):
    n_positive, n_zero = 0, 0
    for parameter in (xi, eta, zeta):
        if compare_with_tolerance(parameter, ">", 0, eps=eps):
            n_positive += 1
        elif compare_with_tolerance(parameter, "==", 0, eps=eps):
            n_zero += 1
    return n_positive == 3 or (n_zero == 0 and n_positive == 1)
''', "_niggli_step_4": '''
def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
    condition = not _positive_product(xi, eta, zeta, eps=eps)
    if condition:
        signs = [1, 1, 1]
        p = None
        for index, value in enumerate((xi, eta, zeta)):
            if compare_with_tolerance(value, ">", 0, eps=eps):
                signs[index] = -1
            elif not compare_with_tolerance(value, "<", 0, eps=eps):
                p = index
        if signs[0] * signs[1] * signs[2] < 0 and p is not None:
            signs[p] = -1
        trans_matrix = trans_matrix @ np.diag(signs)
        xi, eta, zeta = -abs(xi), -abs(eta), -abs(zeta)
    return condition, (A, B, C, xi, eta, zeta), trans_matrix
'''})], "C05")
R("voronoi", [("cell/_voronoi.py", {"get_lattice_points": '''
def get_lattice_points(cell, range=(1, 1, 1), relative=False, flat=True):
    n1, n2, n3 = range
    points = np.meshgrid(
        np.arange(-n1, n1 + 1), np.arange(-n2, n2 + 1), np.arange(-n3, n3 + 1), indexing="ij"
    )
    points = np.array(points).transpose((1, 2, 3, 0))
    if flat:
        points = np.reshape(points, ((2 * n1 + 1) * (2 * n2 + 1) * (2 * n3 + 1), 3))
    if not relative:
        points = points @ cell
    return points
''', "_get_voronoi_cell": '''
def _get_voronoi_cell(cell):
    n = 10
    if not SCIPY_AVAILABLE:
        raise ImportError('SciPy is not available. Please install it with "pip install scipy"')
    origin = ((2 * n + 1) ** 3 - 1) // 2
    voronoi = Voronoi(get_lattice_points(cell, relative=False, range=(n, n, n)))
    edges = _edges_around(voronoi, origin)
    vertices_indices = np.unique(edges.flatten())
    mapping = {v_index: index for index, v_index in enumerate(vertices_indices)}
    new_edges = np.array([[mapping[i], mapping[j]] for i, j in edges], dtype=int)
    return voronoi.vertices[vertices_indices], new_edges


def _edges_around(voronoi, origin):
    edges = set()
    for rv, rp in zip(voronoi.ridge_vertices, voronoi.ridge_points):
        if -1 in rv or origin not in rp:
            continue
        for j in range(len(rv)):
            edge = rv[j - 1], rv[j]
            if edge not in edges and edge[::-1] not in edges:
                edges.add(edge)
    return np.array(list(edges))
''', "get_brillouin_zone": '''
def get_brillouin_zone(cell):
    rcell = get_reciprocal(cell=cell)
    return get_wigner_seitz_cell(rcell)
'''})], "C19")
R("voronoi-mesh", [("cell/_voronoi.py", {"get_lattice_points": '''
def get_lattice_points(cell, range=(1, 1, 1), relative=False, flat=True):
    axes = [np.arange(-r, r + 1) for r in range]
    lattice_points = np.stack(np.meshgrid(*axes, indexing="ij"), axis=-1)
    if not relative:
        lattice_points = np.matmul(lattice_points, cell)
    return lattice_points.reshape((-1, 3)) if flat else lattice_points
'''})], "C19")
R("prim-body", [("crystal/_primitive.py", {"get_primitive": '''
def _prepare(cell, atoms, spglib_data):
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        return get_spglib_data(cell=cell, atoms=atoms)
    if not isinstance(spglib_data, SpglibData):
        raise TypeError(f"Expected SpglibData, got {type(spglib_data)}.")
    validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    return spglib_data


def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
    spglib_data = _prepare(cell, atoms, spglib_data)
    convention = convention.lower()
    matrices = {"hpkot": HPKOT_CONVENTIONAL_TO_PRIMITIVE, "sc": SC_CONVENTIONAL_TO_PRIMITIVE}
    if convention == "spglib":
        prim_cell = spglib_data.primitive_cell
        prim_positions = spglib_data.primitive_positions
        prim_types = spglib_data.primitive_types
    elif convention in matrices:
        conv_cell, conv_atoms = get_conventional(
            cell=cell, atoms=atoms, convention=convention, spglib_data=spglib_data
        )
        matrix = matrices[convention][spglib_data.crystal_family + spglib_data.centring_type]
        prim_cell = np.matmul(np.transpose(matrix), conv_cell)
        positions = conv_atoms["positions"] @ (conv_cell @ np.linalg.inv(prim_cell))
        n = abs(np.linalg.det(conv_cell)) / abs(np.linalg.det(prim_cell))
        prim_positions, prim_types = _get_unique(
            prim_cell, positions, conv_atoms["spglib_types"], n, distance_tolerance=spglib_data.symprec
        )
    else:
        raise ConventionNotSupported(convention, supported_conventions=["HPKOT", "SC", "spglib"])

    prim_atoms = dict(positions=np.array(prim_positions))
    source = {}
    for index, type_index in enumerate(spglib_data.original_types):
        source[type_index] = index
    for key in atoms:
        if key == "positions":
            continue
        prim_atoms[key] = [atoms[key][source[type_index]] for type_index in prim_types]
    if "spglib_types" not in atoms:
        prim_atoms["spglib_types"] = [int(i) for i in prim_types]
    return np.array(prim_cell), prim_atoms
'''})], "C08")
R("prim-unique", [("crystal/_primitive.py", {"_get_unique": '''
def _get_unique(prim_cell, non_unique_positions, non_unique_types, repetition_number, distance_tolerance=1e-5):
    repetition_number = int(round(repetition_number, 0))
    types = np.array(non_unique_types, dtype=int)
    positions = np.round(non_unique_positions, decimals=8) % 1 % 1
    differences = positions[:, np.newaxis, :] - positions[np.newaxis, :, :]
    distances = np.linalg.norm(differences - np.round(differences), axis=2)
    same_atoms = np.isclose(distances, 0, atol=distance_tolerance)
    n_equiv = same_atoms.sum(axis=1)
    if not np.all(n_equiv == repetition_number):
        raise ValueError(f"Some atoms have wrong number of twins. Expected {repetition_number}, got {n_equiv}")
    kept = []
    removed = set()
    for i in range(len(positions)):
        if i in removed:
            continue
        kept.append(i)
        for j in range(len(positions)):
            if same_atoms[i][j]:
                removed.add(j)
    return positions[kept], types[kept]
'''})], "C08")
R("variation", [("crystal/_sc_variation.py", {"_BCT_variation": '''
def _BCT_variation(conv_a: float, conv_c: float):
    if conv_a == conv_c:
        raise ValueError('(convention="SC"): BCT variation). a == c')
    return "BCT1" if conv_c < conv_a else "BCT2"
''', "_ORCF_variation": '''
def _ORCF_variation(conv_a: float, conv_b: float, conv_c: float, distance_tolerance=1e-8):
    ordered = cwt(conv_a, "<", conv_b, eps=distance_tolerance) and cwt(conv_b, "<", conv_c, eps=distance_tolerance)
    if not ordered:
        raise ValueError('(convention="SC"): ORCF variation. a < b < c is not satisfied')
    expression = 1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2
    for sign, name in (("==", "ORCF3"), (">", "ORCF1"), ("<", "ORCF2")):
        if cwt(expression, sign, 0, eps=distance_tolerance):
            return name
''', "_TRI_variation": '''
def _TRI_variation(k_alpha: float, k_beta: float, k_gamma: float, angle_tolerance=1e-4):
    right = [cwt(k, "==", 90, eps=angle_tolerance) for k in (k_alpha, k_beta, k_gamma)]
    if right[0] or right[1]:
        raise ValueError('(convention="SC"): TRI variation. k_alpha == 90 or k_beta == 90.')
    if right[2]:
        if cwt(k_alpha, ">", 90, eps=angle_tolerance) and cwt(k_beta, ">", 90, eps=angle_tolerance):
            return "TRI2a"
        if cwt(k_alpha, "<", 90, eps=angle_tolerance) and cwt(k_beta, "<", 90, eps=angle_tolerance):
            return "TRI2b"
        return None
    angles = sorted([k_alpha, k_beta, k_gamma])
    if cwt(angles[0], ">", 90, eps=angle_tolerance):
        return "TRI1a"
    if cwt(angles[-1], "<", 90, eps=angle_tolerance):
        return "TRI1b"
    return "TRI"
''', "sc_get_variation": '''
def sc_get_variation(cell, atoms, spglib_data=None):
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        spglib_data = get_spglib_data(cell=cell, atoms=atoms)
    elif not isinstance(spglib_data, SpglibData):
        raise TypeError(f"Expected SpglibData, got {type(spglib_data)}.")
    else:
        validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    cell = np.array(cell, dtype=float)
    lattice_type = spglib_data.crystal_family + spglib_data.centring_type
    if lattice_type not in ["tI", "oF", "hR", "mC", "aP"]:
        return SC_BRAVAIS_LATTICE_SHORT_NAMES[lattice_type]
    angle_tolerance = spglib_data.angle_tolerance
    if angle_tolerance == -1:
        angle_tolerance = 1e-4
    conv_cell, _ = get_conventional(cell=cell, atoms=atoms, convention="SC", spglib_data=spglib_data)
    a, b, c, alpha, _, _ = get_params(cell=conv_cell)
    if lattice_type == "tI":
        return _BCT_variation(a, c)
    if lattice_type == "oF":
        return _ORCF_variation(a, b, c, distance_tolerance=spglib_data.symprec)
    if lattice_type == "hR":
        return _RHL_variation(alpha, angle_tolerance=angle_tolerance)
    if lattice_type == "aP":
        return _TRI_variation(*get_params(get_reciprocal(cell=conv_cell))[3:], angle_tolerance=angle_tolerance)
    prim_cell, _ = get_primitive(cell=cell, atoms=atoms, convention="SC", spglib_data=spglib_data)
    k_gamma = get_params(get_reciprocal(cell=prim_cell))[-1]
    return _MCLC_variation(
        a, b, c, alpha, k_gamma, distance_tolerance=spglib_data.symprec, angle_tolerance=angle_tolerance
    )
'''})], "C09")
R("symbol", [("crystal/_hpkot_extended_bl_symbol.py", {"hpkot_get_extended_bl_symbol": '''
def _by_group(lattice_type, number):
    if lattice_type == "hP":
        first = number in range(143, 150) or number in range(159, 164) or number in (151, 153, 157)
        return "hP1" if first else "hP2"
    if 195 <= number <= 206:
        return lattice_type + "1"
    if 207 <= number <= 230:
        return lattice_type + "2"
    raise PotentialBugError(error_summary=f"lattice type {lattice_type}, space group {number}.")


def _by_cell(lattice_type, conventional_cell):
    a, b, c, _, beta, _ = get_params(cell=conventional_cell)
    if lattice_type == "tI":
        return "tI2" if c > a else "tI1"
    if lattice_type == "oF":
        x, y, z = a**-2, b**-2, c**-2
        if x > y + z:
            return "oF1"
        if z > x + y:
            return "oF2"
        return "oF3"
    if lattice_type == "oI":
        longest = max(a, b, c)
        if c == longest:
            return "oI1"
        return "oI2" if a == longest else "oI3"
    if lattice_type == "oC":
        return "oC1" if a <= b else "oC2"
    if lattice_type == "oA":
        return "oA1" if b <= c else "oA2"
    if lattice_type == "hR":
        return "hR1" if sqrt(3) * a <= sqrt(2) * c else "hR2"
    if lattice_type == "mC":
        beta = beta * TORADIANS
        asin = a * sin(beta)
        if b <= asin:
            return "mC1"
        if -a * cos(beta) / c + asin**2 / b**2 <= 1:
            return "mC2"
        return "mC3"
    angles = get_params(cell=get_reciprocal(cell=conventional_cell))[3:]
    if all(angle >= 90 for angle in angles):
        return "aP2"
    return "aP3"


def hpkot_get_extended_bl_symbol(cell, atoms, spglib_data=None):
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        spglib_data = get_spglib_data(cell=cell, atoms=atoms)
    elif not isinstance(spglib_data, SpglibData):
        raise TypeError(f"Expected SpglibData, got {type(spglib_data)}.")
    else:
        validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    cell = np.array(cell, dtype=float)
    lattice_type = spglib_data.crystal_family + spglib_data.centring_type
    if lattice_type in ["cI", "tP", "oP", "mP"]:
        return lattice_type + "1"
    if lattice_type in ["cP", "cF", "hP"]:
        return _by_group(lattice_type, spglib_data.space_group_number)
    if lattice_type not in ["tI", "oF", "oI", "oC", "oA", "hR", "mC", "aP"]:
        raise PotentialBugError(f"lattice type {lattice_type}")
    conventional_cell, _ = get_conventional(
        cell=cell, atoms=atoms, convention="HPKOT", spglib_data=spglib_data
    )
    return _by_cell(lattice_type, conventional_cell)
'''})], "C09")
R("conv-sc", [("crystal/_conventional.py", {"_sc_get_conventional_oPFI": '''
def _sc_get_conventional_oPFI(spglib_std_lattice):
    lengths = get_params(cell=spglib_std_lattice)[:3]
    order = sorted(range(3), key=lambda i: lengths[i])
    matrix = np.zeros((3, 3), dtype=float)
    for column, row in enumerate(order):
        matrix[row][column] = 1
    if np.linalg.det(matrix) < 0:
        matrix = -matrix
    return matrix.T @ spglib_std_lattice
''', "_sc_get_conventional_oC": '''
def _sc_get_conventional_oC(spglib_std_lattice):
    a, b = get_params(cell=spglib_std_lattice)[:2]
    if b < a:
        return np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1]], dtype=float) @ spglib_std_lattice
    return np.eye(3, dtype=float) @ spglib_std_lattice
'''})], "C06 C07")
R("conv-m", [("crystal/_conventional.py", {"_sc_get_conventional_m": '''
def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e-4):
    angles = get_params(cell=spglib_std_lattice)[3:]
    right = [cwt(angle, "==", 90.0, eps=angle_tolerance) for angle in angles]
    if right[1] and right[2]:
        cell = np.array(spglib_std_lattice)
    elif right[0] and right[1]:
        if centring_type == "C":
            raise PotentialBugError('(convention="SC"), MCLC lattice, step 1, case 2.')
        cell = spglib_std_lattice[[2, 0, 1]]
    elif right[0] and right[2]:
        cell = np.array([spglib_std_lattice[1], -spglib_std_lattice[0], spglib_std_lattice[2]])
    else:
        raise PotentialBugError('(convention="SC"): MCL or MCLC lattice, step 1.')
    _, b, c, _, _, _ = get_params(cell=cell)
    if centring_type != "C" and b > c:
        cell = np.array([-cell[0], cell[2], cell[1]])
    alpha = get_params(cell=cell)[3]
    if cwt(alpha, ">", 90.0, eps=angle_tolerance):
        cell = np.diag([-1, -1, 1]) @ cell
    return cell
'''})], "C06 C07")
R("conv-body", [("crystal/_conventional.py", {"get_conventional": '''
def _pick_atoms(atoms, positions, types, original_types):
    result = dict(positions=np.array(positions))
    types_mapping = {type_index: index for index, type_index in enumerate(original_types)}
    indices = [types_mapping[type_index] for type_index in types]
    for key, values in atoms.items():
        if key != "positions":
            result[key] = [values[index] for index in indices]
    if "spglib_types" not in result:
        result["spglib_types"] = [int(i) for i in types]
    return result


def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        spglib_data = get_spglib_data(cell=cell, atoms=atoms)
    elif not isinstance(spglib_data, SpglibData):
        raise TypeError(f"Expected SpglibData, got {type(spglib_data)}.")
    else:
        validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    convention = convention.lower()
    if convention not in ("hpkot", "sc", "spglib"):
        raise ConventionNotSupported(convention, supported_conventions=["HPKOT", "SC", "spglib"])

    family, centring = spglib_data.crystal_family, spglib_data.centring_type
    old_cell = spglib_data.conventional_cell
    positions = spglib_data.conventional_positions
    types = spglib_data.conventional_types
    new_cell = old_cell
    if convention == "hpkot" and family == "a":
        new_cell = _hpkot_get_conventional_a(spglib_std_lattice=old_cell)
    elif convention == "sc":
        angle_tolerance = spglib_data.angle_tolerance if spglib_data.angle_tolerance != -1 else 1e-4
        if family + centring == "hR":
            old_cell = spglib_data.primitive_cell
            positions = spglib_data.primitive_positions
            types = spglib_data.primitive_types
            new_cell = _sc_get_conventional_hR(
                spglib_primitive_cell=old_cell,
                angle_tolerance=angle_tolerance,
                distance_tolerance=spglib_data.symprec,
            )
        else:
            new_cell = _sc_get_conventional_no_hR(
                spglib_std_lattice=old_cell,
                crystal_family=family,
                centring_type=centring,
                angle_tolerance=angle_tolerance,
            )
    if new_cell is not old_cell:
        positions = positions @ old_cell @ np.linalg.inv(new_cell)
    return np.array(new_cell), _pick_atoms(atoms, positions, types, spglib_data.original_types)
'''})], "C06 C07")
R("conv-a", [("crystal/_conventional.py", {"_hpkot_get_conventional_a": '''
_CYCLE = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])


def _hpkot_get_conventional_a(spglib_std_lattice):
    r_cell = get_niggli(cell=get_reciprocal(spglib_std_lattice))
    cell = get_reciprocal(r_cell)
    dot_bc, dot_ac, dot_ab = abs(r_cell[1] @ r_cell[2]), abs(r_cell[0] @ r_cell[2]), abs(r_cell[0] @ r_cell[1])
    smallest = min(dot_bc, dot_ac, dot_ab)
    if dot_bc == smallest:
        cell = _CYCLE.T @ cell
    elif dot_ac == smallest:
        cell = _CYCLE @ cell
    return _signs_a(get_params(cell=get_reciprocal(cell=cell))[3:]).T @ cell


def _signs_a(angles):
    r_alpha, r_beta, r_gamma = angles
    if (r_alpha < 90 and r_beta < 90 and r_gamma < 90) or (r_alpha >= 90 and r_beta >= 90 and r_gamma >= 90):
        return np.diag([1.0, 1.0, 1.0])
    if (r_alpha > 90 and r_beta > 90 and r_gamma < 90) or (r_alpha <= 90 and r_beta <= 90 and r_gamma >= 90):
        return np.diag([-1.0, -1.0, 1.0])
    if (r_alpha > 90 and r_beta < 90 and r_gamma > 90) or (r_alpha <= 90 and r_beta >= 90 and r_gamma <= 90):
        return np.diag([-1.0, 1.0, -1.0])
    if (r_alpha < 90 and r_beta > 90 and r_gamma > 90) or (r_alpha >= 90 and r_beta <= 90 and r_gamma <= 90):
        return np.diag([1.0, -1.0, -1.0])
    raise PotentialBugError('(convention="HPKOT"): aP lattice, step 3.')
'''})], "C06 C07")
R("kpoints-points", [("_kpoints_class.py", {"Kpoints.points": '''
def points(self, relative=False):
    cell = np.eye(3) if relative else self.rcell
    points = [np.zeros((0, 3), dtype=float)]
    for subpath in self.path:
        for name, next_name in zip(subpath[:-1], subpath[1:]):
            start = self.hs_coordinates[name] @ cell
            end = self.hs_coordinates[next_name] @ cell
            points.append(np.linspace(start, end, self._n + 2))
    return np.concatenate(points)
''', "Kpoints.ticks": '''
def ticks(self, relative=False):
    cell = np.eye(3) if relative else self.rcell
    if len(self.path) == 0:
        return np.array([])
    ticks = [0]
    for subpath in self.path:
        for i in range(1, len(subpath)):
            start, end = self.hs_coordinates[subpath[i - 1]], self.hs_coordinates[subpath[i]]
            ticks.append(ticks[-1] + np.linalg.norm((end - start) @ cell))
    return np.array(ticks)
''', "Kpoints.labels": '''
@property
def labels(self) -> list:
    labels = []
    for subpath in self.path:
        names = [self.hs_labels[name] for name in subpath]
        if labels:
            labels[-1] = labels[-1] + "|" + names[0]
            names = names[1:]
        labels.extend(names)
    return labels
'''})], "C13")
R("kpoints-flat", [("_kpoints_class.py", {"Kpoints.flat_points": '''
def flat_points(self, relative=False):
    cell = self.rcell
    if relative:
        cell = np.eye(3)
    flat_points = np.zeros(0, dtype=float)
    last = 0
    for subpath in self.path:
        for i in range(1, len(subpath)):
            start = self.hs_coordinates[subpath[i - 1]] @ cell
            end = self.hs_coordinates[subpath[i]] @ cell
            delta = np.linalg.norm(np.linspace(start, end, self._n + 2) - start, axis=1) + last
            flat_points = np.concatenate((flat_points, delta))
            last = delta[-1]
    return flat_points
''', "Kpoints.remove_hs_point": '''
def remove_hs_point(self, name) -> None:
    if name not in self.hs_names:
        return
    self.hs_names.remove(name)
    self.hs_coordinates.pop(name)
    self.hs_labels.pop(name)
    new_path = []
    for subpath in self._path:
        part = []
        for point in subpath:
            if point != name:
                part.append(point)
                continue
            if len(part) >= 2:
                new_path.append(part)
            part = []
        if len(part) >= 2:
            new_path.append(part)
    self._path = new_path
''', "Kpoints.add_hs_point": '''
def add_hs_point(self, name, coordinate, label=None, relative=True) -> None:
    if name in self.hs_names:
        raise ValueError(f'Point "{name}" already defined.')
    coordinate = np.array(coordinate)
    if not relative:
        coordinate = coordinate @ np.linalg.inv(self.rcell)
    self.hs_coordinates[name] = coordinate
    self.hs_labels[name] = name if label is None else label
    self.hs_names.append(name)
'''})], "C13")
R("vasp-dump", [("io/_vasp.py", {"dump_poscar": '''
def _write_row(file_object, numbers, decimals):
    for number in numbers:
        file_object.write(f"{number:{decimals + 5}.{decimals}f} ")
    file_object.write("\\n")


def dump_poscar(cell, atoms, file_object="POSCAR", comment: str = None, decimals=8, mode: str = "Direct"):
    cell = np.array(cell, dtype=float)
    if mode not in ("Direct", "Cartesian"):
        raise ValueError(f'mode has to be "Direct" or "Cartesian", given: {mode}')
    if comment is None:
        cd = datetime.now()
        comment = f"Written by wulfric (wulfric.org) on {cd.day} {month_name[cd.month]} {cd.year} at {cd.hour}:{cd.minute}:{cd.second}"
    else:
        comment = comment.replace("\\n", " ").replace("\\r", " ")
    groups = {}
    for i, position in enumerate(atoms["positions"]):
        if "species" in atoms:
            atom_type = atoms["species"][i]
        else:
            atom_type = get_atom_species(atoms["names"][i])
            if atom_type == "X":
                raise ValueError(f"Can not deduce atom's type from the name '{atoms['names'][i]}'")
        if mode == "Cartesian":
            position = position @ cell
        groups.setdefault(atom_type, []).append(position)
    if isinstance(file_object, str):
        file_object = open(file_object, "w", encoding="utf-8")
    file_object.write(comment + "\\n1.0\\n")
    for vector in cell:
        _write_row(file_object, vector, decimals)
    kinds = sorted(groups)
    file_object.write("".join(f"{kind} " for kind in kinds) + "\\n")
    file_object.write("".join(f"{len(groups[kind])} " for kind in kinds) + "\\n")
    file_object.write(mode + "\\n")
    for kind in kinds:
        for position in groups[kind]:
            _write_row(file_object, position, decimals)
'''})], "C14")
R("vasp-load", [("io/_vasp.py", {"load_poscar": '''
def _open_poscar(file_object):
    if file_object is None:
        try:
            return open("POSCAR")
        except FileNotFoundError:
            raise FileNotFoundError(f'"POSCAR" file not found, looked here: {os.getcwd()}')
    if not isinstance(file_object, str):
        return file_object
    try:
        return open(file_object, "r", encoding="utf-8")
    except (FileNotFoundError, IsADirectoryError):
        pass
    try:
        return open(os.path.join(file_object, "POSCAR"), "r", encoding="utf-8")
    except FileNotFoundError:
        raise FileNotFoundError(f'"POSCAR" file not found, looked here: {file_object}')


def _floats(line):
    return np.array([float(x) for x in line.split()])


def load_poscar(file_object=None):
    lines = _open_poscar(file_object).readlines()
    comment = lines[0].strip()
    scale_factor = _floats(lines[1])
    cell = np.array([_floats(line) for line in lines[2:5]])
    if len(scale_factor) == 1:
        scale_factor = scale_factor[0]
        if scale_factor < 0:
            scale_factor = abs(scale_factor / get_volume(cell)) ** (1 / 3)
    elif len(scale_factor) != 3 or np.any(scale_factor <= 0):
        raise ValueError(f"Scale factor has to be a single number or a list of 3 positive numbers, got: {scale_factor}")
    cell = cell * scale_factor
    index = 6
    species = lines[5].split()
    species_names = None
    try:
        list(map(int, species))
    except ValueError:
        species_names = species
        species = lines[6].split()
        index = 7
    if lines[index][0] in "Ss":
        index += 1
    cartesian = lines[index][0] in "cCkK"
    index += 1
    atoms = {"names": [], "positions": []}
    for i, number in enumerate(map(int, species)):
        name = f"X{i + 1}" if species_names is None else species_names[i]
        for line in lines[index : index + number]:
            coordinates = _floats(line)[:3] if len(line.split()) <= 3 else np.array([float(x) for x in line.split()[:3]])
            if cartesian:
                coordinates = (coordinates * scale_factor) @ np.linalg.inv(cell)
            atoms["names"].append(name)
            atoms["positions"].append(coordinates)
        index += number
    return cell, atoms, comment
'''})], "C14")
R("vasp-load-small", [("io/_vasp.py", {"load_poscar": '''
def load_poscar(file_object=None):
    if file_object is None:
        try:
            file_object = open("POSCAR")
        except FileNotFoundError:
            raise FileNotFoundError(f'"POSCAR" file not found, looked here: {os.getcwd()}')
    elif isinstance(file_object, str):
        try:
            file_object = open(file_object, "r", encoding="utf-8")
        except (FileNotFoundError, IsADirectoryError):
            try:
                file_object = open(os.path.join(file_object, "POSCAR"), "r", encoding="utf-8")
            except FileNotFoundError:
                raise FileNotFoundError(f'"POSCAR" file not found, looked here: {file_object}')
    lines = file_object.readlines()
    comment = lines[0].strip()
    scale_factor = np.array([float(x) for x in lines[1].split()])
    cell = np.array([[float(x) for x in line.split()] for line in lines[2:5]])
    if len(scale_factor) == 1:
        if scale_factor[0] < 0:
            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
    elif not (len(scale_factor) == 3 and np.all(scale_factor > 0)):
        raise ValueError(f"Scale factor, got: {scale_factor}")
    cell *= scale_factor
    species_names = None
    species = lines[5].split()
    index = 6
    if not _all_integers(species):
        species_names = species
        species = lines[6].split()
        index = 7
    ions_per_species = [int(x) for x in species]
    if lines[index][0] in ["S", "s"]:
        index += 1
    cartesian = lines[index][0].lower() in ["c", "k"]
    index += 1
    names, positions = [], []
    for i in range(len(species)):
        name = f"X{i + 1}" if species_names is None else species_names[i]
        for j in range(ions_per_species[i]):
            coordinates = np.array([float(x) for x in lines[index].split()[:3]])
            index += 1
            if cartesian:
                coordinates = (coordinates * scale_factor) @ np.linalg.inv(cell)
            names.append(name)
            positions.append(coordinates)
    return cell, {"names": names, "positions": positions}, comment


def _all_integers(words):
    for word in words:
        try:
            int(word)
        except ValueError:
            return False
    return True
'''})], "C14")
R("sc-examples", [("cell/_sc_examples.py", {"SC_RHL": '''
def SC_RHL(a: float, alpha: float):
    half = alpha * TORADIANS / 2
    cos_ratio = cos(2 * half) / cos(half)
    x, y = a * cos(half), a * sin(half)
    return np.array([[x, -y, 0], [x, y, 0], [a * cos_ratio, 0, a * sqrt(1 - cos_ratio**2)]])
''', "SC_MCLC": '''
def SC_MCLC(a: float, b: float, c: float, alpha: float):
    a1, a2, a3 = SC_MCL(a, b, c, alpha)
    return np.array([(a1 + a2) / 2, (a2 - a1) / 2, a3])
''', "SC_FCC": '''
def SC_FCC(a: float):
    return a / 2 * (np.ones((3, 3)) - np.eye(3))
''', "SC_BCC": '''
def SC_BCC(a: float):
    return a / 2 * np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])
''', "SC_ORC": '''
def SC_ORC(a: float, b: float, c: float):
    return np.diag([a, b, c])
'''})], "C20")
