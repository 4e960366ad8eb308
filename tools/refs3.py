# behaviour-preserving rewrites, third batch
R("cwt-dict", [("_numerical.py", {"compare_with_tolerance": '''
def compare_with_tolerance(x, condition, y, eps=None, rtol=1e-05, atol=1e-08):
    tolerance = atol + rtol * abs(y) if eps is None else eps
    operators = {
        "<": lambda: x < y - tolerance,
        ">": lambda: y < x - tolerance,
        "<=": lambda: not y < x - tolerance,
        ">=": lambda: not x < y - tolerance,
        "==": lambda: not (x < y - tolerance or y < x - tolerance),
        "!=": lambda: x < y - tolerance or y < x - tolerance,
    }
    if condition not in operators:
        raise ValueError(f'Expected one of "<", ">", "<=", ">=", "==", "!=" as condition, got "{condition}".')
    return operators[condition]()
'''})], "C01 C05")
R("cwt-match", [("_numerical.py", {"compare_with_tolerance": '''
def compare_with_tolerance(x, condition, y, eps=None, rtol=1e-05, atol=1e-08):
    if eps is None:
        eps = rtol * abs(y) + atol

    def less(left, right):
        return left < right - eps

    match condition:
        case "<":
            return less(x, y)
        case ">":
            return less(y, x)
        case "<=":
            return not less(y, x)
        case ">=":
            return not less(x, y)
        case "==":
            return not less(x, y) and not less(y, x)
        case "!=":
            return less(x, y) or less(y, x)
        case _:
            raise ValueError(f'Expected one of "<", ">", "<=", ">=", "==", "!=" as condition, got "{condition}".')
'''})], "C01 C05 C09")
R("geometry-helpers", [("geometry/_geometry.py", {"get_angle": '''
def _normalized(vector, norm):
    return np.array(vector) / norm


def get_angle(v1, v2, radians=False):
    norms = [np.linalg.norm(v) for v in (v1, v2)]
    if any(abs(norm) <= np.finfo(float).eps for norm in norms):
        raise ValueError("Angle is ill defined (zero vector).")
    cosine = np.dot(_normalized(v1, norms[0]), _normalized(v2, norms[1]))
    cosine = max(-1.0, min(1.0, cosine))
    alpha = float(np.arccos(cosine))
    return alpha if radians else float(alpha * TODEGREES)
''', "get_volume": '''
def _volume_from_params(a, b, c, alpha, beta, gamma):
    cosines = [cos(angle * TORADIANS) for angle in (alpha, beta, gamma)]
    ca, cb, cg = cosines
    return a * b * c * sqrt(1 + 2 * ca * cb * cg - ca**2 - cb**2 - cg**2)


def get_volume(*args):
    n = len(args)
    if n == 6:
        return _volume_from_params(*args)
    if n not in (1, 3):
        raise ValueError(
            "Unable to identify input. "
            + "Supported: one (3, 3) array-like, or three (3,) array-like, or 6 floats."
        )
    cell = np.array(args[0] if n == 1 else args)
    return float(abs(np.linalg.det(cell)))
'''})], "C02 C03 C18 C21")
R("spherical-helper", [("geometry/_geometry.py", {"get_spherical": '''
def get_spherical(vector, in_degrees=True, polar_axis=[0, 0, 1], radial_line_zero=[1, 0, 0]):
    def unit(v):
        return np.array(v) / np.linalg.norm(v)

    def angle_to(direction, axis):
        return float(np.arccos(np.clip(np.dot(direction, axis), -1, 1)))

    axis = unit(polar_axis)
    zero = unit(radial_line_zero)
    r = float(np.linalg.norm(vector))
    direction = np.array(vector) / r
    if np.allclose(direction, axis):
        polar = azimuthal = 0.0
    elif np.allclose(direction, -axis):
        polar = azimuthal = np.pi
    else:
        polar = angle_to(direction, axis)
        projection = unit(direction - axis * np.dot(direction, axis))
        azimuthal = angle_to(projection, zero)
        if np.linalg.det([axis, zero, projection]) < 0:
            azimuthal = 2 * np.pi - azimuthal
    factor = TODEGREES if in_degrees else 1
    return r, polar * factor, azimuthal * factor
'''})], "C21")
R("params-comp", [("cell/_basic_manipulation.py", {"get_params": '''
def get_params(cell):
    lengths = tuple(float(np.linalg.norm(vector)) for vector in cell)
    pairs = ((1, 2), (0, 2), (0, 1))
    angles = tuple(get_angle(cell[i], cell[j]) for i, j in pairs)
    return lengths + angles
''', "get_scalar_products": '''
def get_scalar_products(cell):
    products = []
    for i, j in [(1, 2), (0, 2), (0, 1)]:
        products.append(float(np.dot(cell[i], cell[j])))
    return tuple(products)
''', "get_transformation_matrix": '''
def get_transformation_matrix(original_cell, transformed_cell):
    inverse = np.linalg.inv(original_cell)
    return (np.array(transformed_cell) @ inverse).T
''', "from_params": '''
def from_params(a=1.0, b=1.0, c=1.0, alpha=90.0, beta=90.0, gamma=90.0):
    parallelepiped_check(a, b, c, alpha, beta, gamma, raise_error=True)
    (ca, _), (cb, _), (cg, sg) = [
        (cos(angle * TORADIANS), sin(angle * TORADIANS)) for angle in (alpha, beta, gamma)
    ]
    cell = np.zeros((3, 3), dtype=float)
    cell[0, 0] = a
    cell[1, :2] = b * cg, b * sg
    cell[2] = [
        c * cb,
        c / sg * (ca - cb * cg),
        c / sg * sqrt(1 + 2 * ca * cb * cg - ca**2 - cb**2 - cg**2),
    ]
    return cell
'''})], "C02 C03 C04")
R("params-helper", [("cell/_basic_manipulation.py", {"get_params": '''
def get_params(cell):
    a, b, c = cell
    alpha, beta, gamma = get_angle(b, c), get_angle(a, c), get_angle(a, b)
    norms = np.linalg.norm(cell, axis=1)
    return float(norms[0]), float(norms[1]), float(norms[2]), alpha, beta, gamma
''', "get_scalar_products": '''
def get_scalar_products(cell):
    metric = np.array(cell) @ np.transpose(cell)
    return float(metric[1, 2]), float(metric[0, 2]), float(metric[0, 1])
'''})], "C02 C03 C09 C11")
R("kp-init", [("_kpoints_class.py", {"Kpoints.__init__": '''
def __init__(
    self, rcell, coordinates=None, names=None, labels=None, path=None, n=100
) -> None:
    self.rcell = np.array(rcell)
    coordinates = [] if coordinates is None else coordinates
    amount = len(coordinates)
    if labels is None:
        labels = list(names) if names is not None else [f"K$_{i}$" for i in range(1, amount + 1)]
    elif len(labels) != amount:
        raise ValueError(
            f"Amount of labels ({len(labels)}) does not match amount of points ({amount})."
        )
    if names is None:
        names = [f"K{i}" for i in range(1, amount + 1)]
    elif len(names) != amount:
        raise ValueError(
            f"Amount of names ({len(names)}) does not match amount of points ({amount})."
        )
    if len(set(names)) < len(names):
        raise ValueError(f"Names of the points are not unique: {names}.")
    self.hs_coordinates = {}
    self.hs_labels = {}
    for name, coordinate, label in zip(names, coordinates, labels):
        self.hs_coordinates[name] = np.array(coordinate)
        self.hs_labels[name] = label
    self.hs_names = [name for name in names]
    self._n = n
    self._path = None
    if path is not None:
        self.path = path
    elif len(self.hs_names) >= 2:
        self.path = [self.hs_names]
    else:
        self.path = []
'''})], "C13")
R("kp-edit", [("_kpoints_class.py", {"Kpoints.add_hs_point": '''
def add_hs_point(self, name, coordinate, label=None, relative=True) -> None:
    if name in self.hs_names:
        raise ValueError(f'Point "{name}" already defined.')
    point = np.array(coordinate)
    if not relative:
        point = point @ np.linalg.inv(self.rcell)
    self.hs_names += [name]
    self.hs_coordinates[name] = point
    self.hs_labels[name] = name if label is None else label
''', "Kpoints.remove_hs_point": '''
def remove_hs_point(self, name) -> None:
    if name not in self.hs_names:
        return
    self.hs_names.remove(name)
    self.hs_coordinates.pop(name)
    self.hs_labels.pop(name)
    pieces = []
    for subpath in self._path:
        piece = []
        for point in subpath:
            if point != name:
                piece.append(point)
                continue
            pieces.append(piece)
            piece = []
        pieces.append(piece)
    self._path = [piece for piece in pieces if len(piece) > 1]
'''})], "C13")
R("kp-path", [("_kpoints_class.py", {"Kpoints.labels": '''
@property
def labels(self) -> list:
    labels = []
    for subpath in self.path:
        current = [self.hs_labels[name] for name in subpath]
        if labels:
            labels[-1] = labels[-1] + "|" + current[0]
            current = current[1:]
        labels.extend(current)
    return labels
''', "Kpoints.ticks": '''
def ticks(self, relative=False):
    cell = np.eye(3) if relative else self.rcell
    ticks = []
    for subpath in self.path:
        if not ticks:
            ticks.append(0)
        for previous, name in zip(subpath[:-1], subpath[1:]):
            start = self.hs_coordinates[previous] @ cell
            end = self.hs_coordinates[name] @ cell
            ticks.append(ticks[-1] + np.linalg.norm(end - start))
    return np.array(ticks)
''', "Kpoints.n": '''
@property
def n(self) -> int:
    return self._n
'''})], "C13")
R("shift-cure", [("crystal/_basic_manipulation.py", {"shift_atoms": '''
def shift_atoms(atoms, gravity_point=(0.5, 0.5, 0.5), cell=None, gp_is_relative=True) -> None:
    if not gp_is_relative and cell is None:
        raise ValueError("cell is required if gp_is_relative False")
    target = np.array(gravity_point)
    if not gp_is_relative:
        target = target @ np.linalg.inv(cell)
    positions = np.array(atoms["positions"])
    middle = (positions.min(axis=0) + positions.max(axis=0)) / 2
    atoms["positions"] = [position + (target - middle) for position in atoms["positions"]]
''', "cure_negative": '''
def cure_negative(atoms) -> None:
    lowest = np.min(atoms["positions"], axis=0)
    shift = np.maximum(0, -lowest)
    moved = []
    for position in atoms["positions"]:
        moved.append(position + shift)
    atoms["positions"] = moved
''', "ensure_000": '''
def _to_unit_interval(x):
    x -= int(x)
    if x >= 0:
        return x
    x += 1
    return x - 1 if x >= 1 else x


def ensure_000(atoms) -> None:
    for position in atoms["positions"]:
        for j in range(3):
            position[j] = _to_unit_interval(position[j])
'''})], "C18 C19")
R("vector-swap", [("crystal/_basic_manipulation.py", {"get_vector": '''
def get_vector(cell, atoms, atom1, atom2, R=(0, 0, 0), return_relative=False) -> np.ndarray:
    start = np.array(atoms["positions"][atom1], dtype=float)
    end = np.array(atoms["positions"][atom2], dtype=float) + np.array(R, dtype=float)
    vector = end - start
    return vector if return_relative else vector @ cell
''', "get_distance": '''
def get_distance(cell, atoms, atom1, atom2, R=(0, 0, 0)) -> float:
    vector = get_vector(cell, atoms, atom1, atom2, R)
    return float(np.sqrt(np.sum(vector**2)))
'''})], "C18 C19")
R("species-next", [("crystal/_atoms.py", {"get_atom_species": '''
def _deduce(name):
    lowered = name.lower()
    found = "X"
    for candidate in ATOM_SPECIES:
        if candidate.lower() not in lowered:
            continue
        found = candidate
        if len(candidate) == 2:
            return found
    return found


def get_atom_species(name: str, raise_on_fail=False) -> str:
    atom_species = _deduce(name)
    if atom_species != "X":
        return atom_species
    if raise_on_fail:
        raise FailedToDeduceAtomSpecies(name=name)
    import warnings

    warnings.warn(f"Atom species deduction failed for '{name}'. Set species to 'X'", RuntimeWarning)
    return atom_species
'''})], "C15 C16 C17")
R("names-set", [("crystal/_atoms.py", {"get_unique_names": '''
def get_unique_names(atoms, strategy: str = "all") -> list:
    validate_atoms(atoms=atoms, required_keys=["names"], raise_errors=True)
    strategy = strategy.lower()
    if strategy not in ("all", "repeated-only"):
        raise ValueError(
            f"{strategy} strategy is not supported. Supported are:\\n"
            + "\\n".join([f"  * {i}" for i in ("all", "repeated-only")])
        )
    names = atoms["names"]
    if len(names) == len(set(names)):
        return names
    if strategy == "all":
        result = []
        for number, name in enumerate(names, start=1):
            candidate = f"{name}{number}"
            while candidate in result:
                number += len(names)
                candidate = f"{name}{number}"
            result.append(candidate)
        return result
    totals = {}
    for name in names:
        totals[name] = totals.get(name, 0) + 1
    taken = {name for name, total in totals.items() if total == 1}
    following = {name: 1 for name in totals}
    for i in range(len(names)):
        name = names[i]
        if totals[name] == 1:
            continue
        while f"{name}{following[name]}" in taken:
            following[name] += 1
        names[i] = f"{name}{following[name]}"
        taken.add(names[i])
    return names
'''})], "C17")
R("spglib-loop", [("_spglib_interface.py", {"SpglibData.__init__": '''
def __init__(self, cell, atoms, spglib_symprec=1e-5, spglib_angle_tolerance=-1):
    if spglib is None:
        raise ImportError("spglib is not installed. Please install it with `pip install spglib`")
    try:
        validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
        try:
            cell = np.array(cell, dtype=float)
        except Exception as e:
            _raise_with_message(e=e, message=f"cell is not array-like, got\\n{cell}")
        if cell.shape != (3, 3):
            raise ValueError(f"Expected shape of (3, 3) for cell, got {cell.shape}.")
        positions = np.array(deepcopy(atoms["positions"]), dtype=float)
        types = deepcopy(get_spglib_types(atoms=atoms))
        tolerances = dict(symprec=spglib_symprec, angle_tolerance=spglib_angle_tolerance)
        values = {
            "original_cell": deepcopy(cell),
            "original_positions": positions,
            "original_types": types,
            "spglib_version": spglib.__version__,
            **tolerances,
        }
        dataset = spglib.get_symmetry_dataset((cell, positions, types), **tolerances)
        if dataset is None:
            raise RuntimeError(
                f"spglib failed to detect symmetry for the given structure with "
                f"spglib_symprec = {spglib_symprec} and "
                f"spglib_angle_tolerance = {spglib_angle_tolerance}."
            )
        if isinstance(dataset, dict):
            dataset = add_sugar(dataset)
        number = dataset.number
        rotation = dataset.std_rotation_matrix
        values["space_group_number"] = number
        values["crystal_family"] = CRYSTAL_FAMILY[number]
        values["centring_type"] = CENTRING_TYPE[number]
        values["conventional_cell"] = dataset.std_lattice @ rotation
        values["conventional_positions"] = np.array(dataset.std_positions, dtype=float)
        values["conventional_types"] = dataset.std_types
        primitive = spglib.find_primitive((cell, positions, types), **tolerances)
        values["primitive_cell"] = primitive[0] @ rotation
        values["primitive_positions"] = np.array(primitive[1], dtype=float)
        values["primitive_types"] = primitive[2]
        for name, value in values.items():
            object.__setattr__(self, name, value)
    except Exception as e:
        _raise_with_message(
            e=e,
            message=f"Call to spglib failed. Spglib version {spglib.__version__}." + _SUPPORT_FOOTER,
        )
'''})], "C06 C07 C16")
R("conv-hR-oC", [("crystal/_conventional.py", {"_sc_get_conventional_oC": '''
def _sc_get_conventional_oC(spglib_std_lattice):
    lengths = np.linalg.norm(spglib_std_lattice, axis=1)
    if lengths[0] <= lengths[1]:
        return np.eye(3, dtype=float) @ spglib_std_lattice
    matrix = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]], dtype=float)
    return matrix.T @ spglib_std_lattice
''', "_sc_get_conventional_hR": '''
def _sc_get_conventional_hR(
    spglib_primitive_cell, angle_tolerance=1e-4, distance_tolerance=1e-5
):
    a, b, c, alpha, beta, gamma = get_params(cell=spglib_primitive_cell)

    for x, y in [(a, b), (a, c), (b, c)]:
        if cwt(x, "!=", y, eps=distance_tolerance):
            raise PotentialBugError(
                f'(convention="SC"): hR lattice. Lattice vectors have different lengths with the precision of {distance_tolerance:.5e}'
            )

    def same(x, y):
        return cwt(x, "==", y, eps=angle_tolerance)

    if same(alpha, beta) and same(alpha, gamma):
        signs = [1, 1, 1]
    elif same(180 - alpha, beta) and same(beta, gamma):
        signs = [1, -1, -1]
    elif same(alpha, 180 - beta) and same(alpha, gamma):
        signs = [-1, 1, -1]
    elif same(alpha, beta) and same(beta, 180 - gamma):
        signs = [-1, -1, 1]
    else:
        raise PotentialBugError('(convention="SC"): hR lattice. Angles can not be made equal.')
    return np.diag(signs) @ spglib_primitive_cell
'''})], "C06 C09")
R("conv-nohr", [("crystal/_conventional.py", {"_sc_get_conventional_no_hR": '''
def _sc_get_conventional_no_hR(
    spglib_std_lattice, crystal_family, centring_type, angle_tolerance=1e-4
):
    if crystal_family in ("c", "t") or crystal_family + centring_type == "hP":
        return spglib_std_lattice
    if crystal_family == "m":
        return _sc_get_conventional_m(
            spglib_std_lattice=spglib_std_lattice,
            centring_type=centring_type,
            angle_tolerance=angle_tolerance,
        )
    if crystal_family == "a":
        return _sc_get_conventional_a(
            spglib_std_lattice=spglib_std_lattice, angle_tolerance=angle_tolerance
        )
    if crystal_family != "o":
        raise PotentialBugError(f'(convention="sc"): unexpected crystal family "{crystal_family}".')
    if centring_type in ("P", "F", "I"):
        return _sc_get_conventional_oPFI(spglib_std_lattice=spglib_std_lattice)
    if centring_type == "A":
        spglib_std_lattice = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]) @ spglib_std_lattice
    elif centring_type != "C":
        raise PotentialBugError(
            f'(convention="sc"): crystal family "o". Unexpected centring type "{centring_type}".'
        )
    return _sc_get_conventional_oC(spglib_std_lattice=spglib_std_lattice)
''', "_sc_get_conventional_oPFI": '''
def _sc_get_conventional_oPFI(spglib_std_lattice):
    a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
    cases = [
        (a <= b <= c, [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
        (a <= c <= b, [[-1, 0, 0], [0, 0, -1], [0, -1, 0]]),
        (b <= a <= c, [[0, -1, 0], [-1, 0, 0], [0, 0, -1]]),
        (b <= c <= a, [[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
        (c <= a <= b, [[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
        (c <= b <= a, [[0, 0, -1], [0, -1, 0], [-1, 0, 0]]),
    ]
    for condition, matrix in cases:
        if condition:
            return np.array(matrix, dtype=float).T @ spglib_std_lattice
    raise PotentialBugError(
        '(convention="SC"): oP, oF, oI lattices. Length of the lattice vectors fall outside of six cases.'
    )
'''})], "C06 C09")
R("conv-sc-a", [("crystal/_conventional.py", {"_sc_get_conventional_a": '''
def _sc_get_conventional_a(spglib_std_lattice, angle_tolerance=1e-4):
    r_cell = get_reciprocal(cell=spglib_std_lattice)
    _, _, _, r_alpha, r_beta, r_gamma = get_params(cell=r_cell)
    if (r_alpha < 90.0 and r_beta < 90.0 and r_gamma < 90.0) or (
        r_alpha >= 90.0 and r_beta >= 90.0 and r_gamma >= 90.0
    ):
        signs = (1, 1, 1)
    elif (r_alpha > 90.0 and r_beta > 90.0 and r_gamma < 90.0) or (
        r_alpha <= 90.0 and r_beta <= 90.0 and r_gamma >= 90.0
    ):
        signs = (-1, -1, 1)
    elif (r_alpha > 90.0 and r_beta < 90.0 and r_gamma > 90.0) or (
        r_alpha <= 90.0 and r_beta >= 90.0 and r_gamma <= 90.0
    ):
        signs = (-1, 1, -1)
    elif (r_alpha < 90.0 and r_beta > 90.0 and r_gamma > 90.0) or (
        r_alpha >= 90.0 and r_beta <= 90.0 and r_gamma <= 90.0
    ):
        signs = (1, -1, -1)
    else:
        raise PotentialBugError(
            '(convention="SC"): aP lattice, step 1. Values of the reciprocal angles fall outside of four cases.'
        )
    r_cell_step_1 = np.array([sign * vector for sign, vector in zip(signs, r_cell)])
    _, _, _, r_alpha, r_beta, r_gamma = get_params(cell=r_cell_step_1)
    smallest = min(r_alpha, r_beta, r_gamma)
    largest = max(r_alpha, r_beta, r_gamma)

    def extreme(angle):
        return (angle == smallest and cwt(angle, ">=", 90.0, eps=angle_tolerance)) or (
            angle == largest and cwt(angle, "<=", 90.0, eps=angle_tolerance)
        )

    if extreme(r_gamma):
        order = [0, 1, 2]
    elif extreme(r_beta):
        order = [2, 0, 1]
    elif extreme(r_alpha):
        order = [1, 2, 0]
    else:
        raise PotentialBugError(
            '(convention="SC"): aP lattice, step 2. Values of the reciprocal angles fall outside of four cases.'
        )
    return get_reciprocal(cell=r_cell_step_1)[order]
'''})], "C06 C09")
R("hpkot-dispatch", [("kpoints/_path_and_points.py", {"get_path_as_string": '''
def get_path_as_string(path_as_list) -> str:
    if not isinstance(path_as_list, Iterable):
        raise ValueError(f"path_as_list is not Iterable, can not convert to string:\\n{path_as_list}")
    result = ""
    for number, subpath in enumerate(path_as_list, start=1):
        if not isinstance(subpath, Iterable):
            raise ValueError(
                f"Subpath {number} is not Iterable, can not convert to string:\\n{subpath}"
            )
        if number > 1:
            result += "|"
        result += "-".join(subpath)
    return result
''', "get_path_as_list": '''
def get_path_as_list(path_as_string) -> list:
    if not isinstance(path_as_string, str):
        raise ValueError(f"path_as_string is not a string: {path_as_string}")
    path_as_list = [subpath.split("-") for subpath in path_as_string.split("|")]
    for number, subpath in enumerate(path_as_list, start=1):
        if len(subpath) < 2:
            raise ValueError(f"Subpath {number} has less than two points: {'-'.join(subpath)}")
    return path_as_list
'''})], "C12")
R("niggli-others", [("cell/_niggli.py", {"_niggli_step_1": '''
def _greater(x, y, eps):
    return compare_with_tolerance(x, ">", y, eps=eps)


def _equal(x, y, eps):
    return compare_with_tolerance(x, "==", y, eps=eps)


def _niggli_step_1(A, B, C, xi, eta, zeta, trans_matrix, eps):
    swap = _greater(A, B, eps) or (_equal(A, B, eps) and _greater(abs(xi), abs(eta), eps))
    if not swap:
        return swap, (A, B, C, xi, eta, zeta), trans_matrix
    matrix = -np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]], dtype=int)
    return swap, (B, A, C, eta, xi, zeta), trans_matrix @ matrix
''', "_niggli_step_2": '''
def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
    swap = _greater(B, C, eps) or (_equal(B, C, eps) and _greater(abs(eta), abs(zeta), eps))
    if swap:
        trans_matrix = trans_matrix @ np.array([[-1, 0, 0], [0, 0, -1], [0, -1, 0]], dtype=int)
        B, C = C, B
        eta, zeta = zeta, eta
    return swap, (A, B, C, xi, eta, zeta), trans_matrix
''', "_niggli_step_5": '''
def _niggli_step_5(A, B, C, xi, eta, zeta, trans_matrix, eps):
    condition = (
        _greater(abs(xi), B, eps)
        or (_equal(xi, B, eps) and compare_with_tolerance(2 * eta, "<", zeta, eps=eps))
        or (_equal(xi, -B, eps) and compare_with_tolerance(zeta, "<", 0, eps=eps))
    )
    if condition:
        sign = np.sign(xi)
        matrix = np.eye(3, dtype=int)
        matrix[1, 2] = -sign
        trans_matrix = trans_matrix @ matrix
        C, eta, xi = B + C - sign * xi, eta - sign * zeta, xi - 2 * sign * B
    return condition, (A, B, C, xi, eta, zeta), trans_matrix
''', "_niggli_step_7": '''
def _niggli_step_7(A, B, C, xi, eta, zeta, trans_matrix, eps):
    condition = (
        _greater(abs(zeta), A, eps)
        or (_equal(zeta, A, eps) and compare_with_tolerance(2 * xi, "<", eta, eps=eps))
        or (_equal(zeta, -A, eps) and compare_with_tolerance(eta, "<", 0, eps=eps))
    )
    if condition:
        sign = 1 if zeta > 0 else (-1 if zeta < 0 else 0)
        trans_matrix = trans_matrix @ np.array([[1, -sign, 0], [0, 1, 0], [0, 0, 1]], dtype=int)
        B = A + B - zeta * sign
        xi = xi - eta * sign
        zeta = zeta - 2 * A * sign
    return condition, (A, B, C, xi, eta, zeta), trans_matrix
''', "_niggli_step_8": '''
def _niggli_step_8(A, B, C, xi, eta, zeta, trans_matrix, eps):
    total = xi + eta + zeta + A + B
    condition = compare_with_tolerance(total, "<", 0, eps=eps) or (
        compare_with_tolerance(total, "==", 0, eps=eps)
        and compare_with_tolerance(2 * (A + eta) + zeta, ">", 0, eps=eps)
    )
    if condition:
        trans_matrix = trans_matrix @ np.array([[1, 0, 1], [0, 1, 1], [0, 0, 1]], dtype=int)
        C += total
        xi += 2 * B + zeta
        eta += 2 * A + zeta
    return condition, (A, B, C, xi, eta, zeta), trans_matrix
'''})], "C05")
R("prim-matrix", [("crystal/_primitive.py", {"get_primitive": '''
def _copy_properties(atoms, prim_atoms, prim_types, original_types):
    last_index = {}
    for index, type_index in enumerate(original_types):
        last_index[type_index] = index
    indices = [last_index[type_index] for type_index in prim_types]
    for key, values in atoms.items():
        if key == "positions":
            continue
        prim_atoms[key] = [values[index] for index in indices]


def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        spglib_data = get_spglib_data(cell=cell, atoms=atoms)
    elif isinstance(spglib_data, SpglibData):
        validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    else:
        raise TypeError(
            f"Are you sure that spglib_data were produced via wulfric's interface? Expected SpglibData, got {type(spglib_data)}."
        )
    convention = convention.lower()
    if convention not in ("spglib", "hpkot", "sc"):
        raise ConventionNotSupported(convention, supported_conventions=["HPKOT", "SC", "spglib"])
    if convention == "spglib":
        prim_cell = spglib_data.primitive_cell
        prim_positions = spglib_data.primitive_positions
        prim_types = spglib_data.primitive_types
    else:
        tables = {"hpkot": HPKOT_CONVENTIONAL_TO_PRIMITIVE, "sc": SC_CONVENTIONAL_TO_PRIMITIVE}
        matrix = tables[convention][spglib_data.crystal_family + spglib_data.centring_type]
        conv_cell, conv_atoms = get_conventional(
            cell=cell, atoms=atoms, convention=convention, spglib_data=spglib_data
        )
        prim_cell = matrix.T @ conv_cell
        ratio = np.linalg.det(conv_cell) / np.linalg.det(prim_cell)
        prim_positions, prim_types = _get_unique(
            prim_cell=prim_cell,
            non_unique_positions=conv_atoms["positions"] @ conv_cell @ np.linalg.inv(prim_cell),
            non_unique_types=conv_atoms["spglib_types"],
            repetition_number=abs(ratio),
            distance_tolerance=spglib_data.symprec,
        )
    prim_cell, prim_positions = np.array(prim_cell), np.array(prim_positions)
    prim_atoms = {"positions": prim_positions}
    _copy_properties(atoms, prim_atoms, prim_types, spglib_data.original_types)
    if "spglib_types" not in prim_atoms:
        prim_atoms["spglib_types"] = list(map(int, prim_types))
    return prim_cell, prim_atoms
'''})], "C07 C08 C10")
R("prim-unique-loops", [("crystal/_primitive.py", {"_get_unique": '''
def _get_unique(
    prim_cell,
    non_unique_positions,
    non_unique_types,
    repetition_number,
    distance_tolerance=1e-5,
):
    repetition_number = int(round(repetition_number, 0))
    types = np.array(non_unique_types, dtype=int)
    positions = np.round(non_unique_positions, decimals=8) % 1 % 1
    differences = positions[:, None, :] - positions[None, :, :]
    differences = differences - np.round(differences)
    distances = np.sqrt(np.sum(differences**2, axis=2))
    same_atoms = np.isclose(distances, 0, atol=distance_tolerance)
    n_equiv = np.sum(same_atoms, axis=1)
    if np.any(n_equiv != repetition_number):
        abs_pos = positions @ prim_cell
        raise ValueError(
            f"Some atoms have wrong number of twins. Expected {repetition_number} twins for each, got\\n  * "
            + "\\n  * ".join(
                [
                    f"atom at {abs_pos[i][0]:.5f} {abs_pos[i][1]:.5f} {abs_pos[i][2]:.5f} "
                    + f"({positions[i][0]:.5f} {positions[i][1]:.5f} {positions[i][2]:.5f} @ prim_cell) "
                    + f"with type {types[i]} has {n_equiv} twins"
                    for i in range(len(positions))
                ]
            )
        )
    chosen = []
    taken = [False] * len(positions)
    for i in range(len(positions)):
        if taken[i]:
            continue
        chosen.append(i)
        for j in range(len(positions)):
            if j == i or same_atoms[i][j]:
                taken[j] = True
    return positions[chosen], types[chosen]
'''})], "C08")
R("example-dict", [("cell/_sc_examples.py", {"SC_TET": '''
def SC_TET(a: float, c: float):
    cell = np.eye(3)
    cell[0] *= a
    cell[1] *= a
    cell[2] *= c
    return cell
''', "SC_BCC": '''
def SC_BCC(a: float):
    half = a / 2
    cell = np.full((3, 3), half)
    for i in range(3):
        cell[i, i] = -half
    return cell
''', "SC_FCC": '''
def SC_FCC(a: float):
    return a / 2 * (np.ones((3, 3)) - np.eye(3))
'''})], "C20")
R("variation-table", [("crystal/_sc_variation.py", {"sc_get_variation": '''
def sc_get_variation(cell, atoms, spglib_data=None):
    validate_atoms(atoms=atoms, required_keys=["positions"], raise_errors=True)
    if spglib_data is None:
        spglib_data = get_spglib_data(cell=cell, atoms=atoms)
    elif not isinstance(spglib_data, SpglibData):
        raise TypeError(
            f"Are you sure that spglib_data were produced via wulfric's interface? Expected SpglibData, got {type(spglib_data)}."
        )
    else:
        validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
    cell = np.array(cell, dtype=float)
    lattice_type = spglib_data.crystal_family + spglib_data.centring_type
    if lattice_type not in {"tI", "oF", "hR", "mC", "aP"}:
        return SC_BRAVAIS_LATTICE_SHORT_NAMES[lattice_type]
    angle_tolerance = spglib_data.angle_tolerance
    if angle_tolerance == -1:
        angle_tolerance = 1e-4
    conv_cell, _ = get_conventional(
        cell=cell, atoms=atoms, convention="SC", spglib_data=spglib_data
    )
    a, b, c, alpha, *_ = get_params(cell=conv_cell)
    if lattice_type == "tI":
        return _BCT_variation(a, c)
    elif lattice_type == "oF":
        return _ORCF_variation(a, b, c, distance_tolerance=spglib_data.symprec)
    elif lattice_type == "hR":
        return _RHL_variation(alpha, angle_tolerance=angle_tolerance)
    elif lattice_type == "mC":
        prim_cell, _ = get_primitive(
            cell=cell, atoms=atoms, convention="SC", spglib_data=spglib_data
        )
        k_gamma = get_params(get_reciprocal(cell=prim_cell))[-1]
        return _MCLC_variation(
            a,
            b,
            c,
            alpha,
            k_gamma,
            distance_tolerance=spglib_data.symprec,
            angle_tolerance=angle_tolerance,
        )
    angles = get_params(get_reciprocal(cell=conv_cell))[3:]
    return _TRI_variation(*angles, angle_tolerance=angle_tolerance)
''', "_TRI_variation": '''
def _TRI_variation(k_alpha: float, k_beta: float, k_gamma: float, angle_tolerance=1e-4):
    def compare(angle, condition):
        return cwt(angle, condition, 90, eps=angle_tolerance)

    if compare(k_alpha, "==") or compare(k_beta, "=="):
        raise ValueError(
            f'(convention="SC"): TRI variation. k_alpha == 90 or k_beta == 90 with {angle_tolerance} tolerance.'
        )
    angles = (k_alpha, k_beta, k_gamma)
    if compare(k_gamma, "=="):
        if compare(k_alpha, ">") and compare(k_beta, ">"):
            return "TRI2a"
        if compare(k_alpha, "<") and compare(k_beta, "<"):
            return "TRI2b"
        return None
    if compare(min(angles), ">"):
        return "TRI1a"
    if compare(max(angles), "<"):
        return "TRI1b"
    return "TRI"
'''})], "C09")
