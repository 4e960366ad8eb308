R("numerical", [("_numerical.py", {"compare_with_tolerance": '''
def _less(x, y, eps):
    return x < y - eps


def compare_with_tolerance(x, condition, y, eps=None, rtol=1e-05, atol=1e-08):
    tolerance = atol + rtol * abs(y) if eps is None else eps
    operations = {
        "<": lambda: _less(x, y, tolerance),
        ">": lambda: _less(y, x, tolerance),
        "<=": lambda: not _less(y, x, tolerance),
        ">=": lambda: not _less(x, y, tolerance),
        "==": lambda: not (_less(x, y, tolerance) or _less(y, x, tolerance)),
        "!=": lambda: _less(x, y, tolerance) or _less(y, x, tolerance),
    }
    if condition not in operations:
        raise ValueError(f"Expected one of {list(operations)} as condition, got {condition}")
    return operations[condition]()
'''})], "C01 C03 C05")
R("geometry", [("geometry/_geometry.py", {"get_volume": '''
def _volume_from_parameters(a, b, c, alpha, beta, gamma):
    ca, cb, cg = (cos(angle * TORADIANS) for angle in (alpha, beta, gamma))
    return a * b * c * sqrt(1 + 2 * ca * cb * cg - ca**2 - cb**2 - cg**2)


def get_volume(*args):
    if len(args) not in (1, 3, 6):
        raise ValueError("Unable to identify input.")
    if len(args) == 6:
        return _volume_from_parameters(*args)
    cell = np.array(args[0] if len(args) == 1 else args)
    return float(np.abs(np.linalg.det(cell)))
''', "get_angle": '''
def _unit(v):
    norm = np.linalg.norm(v)
    if abs(norm) <= np.finfo(float).eps:
        raise ValueError("Angle is ill defined (zero vector).")
    return np.array(v) / norm


def get_angle(v1, v2, radians=False):
    cosine = np.dot(_unit(v1), _unit(v2))
    cosine = max(-1.0, min(1.0, cosine))
    alpha = np.arccos(cosine)
    factor = 1.0 if radians else TODEGREES
    return float(alpha * factor)
''', "get_spherical": '''
def get_spherical(vector, in_degrees=True, polar_axis=[0, 0, 1], radial_line_zero=[1, 0, 0]):
    polar_axis = np.array(polar_axis) / np.linalg.norm(polar_axis)
    radial_line_zero = np.array(radial_line_zero) / np.linalg.norm(radial_line_zero)
    r = float(np.linalg.norm(vector))
    direction = np.array(vector) / r
    if np.allclose(direction, polar_axis):
        polar = azimuthal = 0.0
    elif np.allclose(direction, -polar_axis):
        polar = azimuthal = np.pi
    else:
        projection = np.dot(direction, polar_axis)
        polar = float(np.arccos(np.clip(projection, -1, 1)))
        in_plane = direction - polar_axis * projection
        in_plane = in_plane / np.linalg.norm(in_plane)
        azimuthal = float(np.arccos(np.clip(np.dot(in_plane, radial_line_zero), -1, 1)))
        if np.linalg.det([polar_axis, radial_line_zero, in_plane]) < 0:
            azimuthal = 2 * np.pi - azimuthal
    if not in_degrees:
        return r, polar, azimuthal
    return r, polar * TODEGREES, azimuthal * TODEGREES
'''})], "C02 C03 C21")
R("pcheck-loop", [("geometry/_geometry.py", {"parallelepiped_check": '''
def parallelepiped_check(a, b, c, alpha, beta, gamma, raise_error=False, length_tolerance=1e-08, angle_tolerance=0.0001):
    problems = []
    for name, length in (("a", a), ("b", b), ("c", c)):
        if not compare_with_tolerance(length, ">", 0.0, eps=length_tolerance):
            problems.append(f"{name} = {length} (<= 0 with numerical tolerance: {length_tolerance})")
    angles = [alpha, beta, gamma]
    names = ["alpha", "beta", "gamma"]
    for name, angle in zip(names, angles):
        if not compare_with_tolerance(angle, "<", 180.0, eps=angle_tolerance):
            problems.append(f"{name} = {angle} (>= 180)")
        if not compare_with_tolerance(angle, ">", 0.0, eps=angle_tolerance):
            problems.append(f"{name} = {angle} (<= 0)")
    for i in range(3):
        first, second, third = angles[i], angles[(i + 1) % 3], angles[(i + 2) % 3]
        if not compare_with_tolerance(first, "<", second + third, eps=angle_tolerance):
            problems.append(f"Inequality on {names[i]} is not satisfied")
        if not compare_with_tolerance(second + third, "<", 360.0 - first, eps=angle_tolerance):
            problems.append(f"Sum inequality on {names[i]} is not satisfied")
    if len(problems) > 0 and raise_error:
        raise ValueError("Parameters could not form a parallelepiped:" + " | ".join(problems))
    return len(problems) == 0
'''})], "C03 C20")
R("pcheck-all", [("geometry/_geometry.py", {"parallelepiped_check": '''
def parallelepiped_check(a, b, c, alpha, beta, gamma, raise_error=False, length_tolerance=1e-08, angle_tolerance=0.0001):
    lengths_are_positive = all(compare_with_tolerance(x, ">", 0.0, eps=length_tolerance) for x in (a, b, c))
    angles_in_range = all(
        compare_with_tolerance(x, ">", 0.0, eps=angle_tolerance) and compare_with_tolerance(x, "<", 180.0, eps=angle_tolerance)
        for x in (alpha, beta, gamma)
    )
    angles_fit = all(
        [
            compare_with_tolerance(x, "<", y + z, eps=angle_tolerance)
            and compare_with_tolerance(y + z, "<", 360.0 - x, eps=angle_tolerance)
            for x, y, z in [(alpha, beta, gamma), (beta, alpha, gamma), (gamma, alpha, beta)]
        ]
    )
    result = lengths_are_positive and angles_in_range and angles_fit
    if raise_error and not result:
        raise ValueError("Parameters could not form a parallelepiped")
    return result
'''})], "C03 C20 C02")
R("cell-basic", [("cell/_basic_manipulation.py", {"get_reciprocal": '''
def get_reciprocal(cell):
    inverse = np.linalg.inv(cell)
    return 2 * PI * np.transpose(inverse)
''', "from_params": '''
def from_params(a=1.0, b=1.0, c=1.0, alpha=90.0, beta=90.0, gamma=90.0):
    parallelepiped_check(a, b, c, alpha, beta, gamma, raise_error=True)
    cos_a, cos_b, cos_g = cos(alpha * TORADIANS), cos(beta * TORADIANS), cos(gamma * TORADIANS)
    sin_g = sin(gamma * TORADIANS)
    cell = np.zeros((3, 3), dtype=float)
    cell[0, 0] = a
    cell[1] = [b * cos_g, b * sin_g, 0]
    cell[2, 0] = c * cos_b
    cell[2, 1] = c / sin_g * (cos_a - cos_b * cos_g)
    cell[2, 2] = c / sin_g * sqrt(1 + 2 * cos_a * cos_b * cos_g - cos_a**2 - cos_b**2 - cos_g**2)
    return cell
''', "get_params": '''
def get_params(cell):
    lengths = [float(np.linalg.norm(vector)) for vector in cell]
    angles = [get_angle(cell[i], cell[j]) for i, j in [(1, 2), (0, 2), (0, 1)]]
    return tuple(lengths + angles)
''', "get_scalar_products": '''
def get_scalar_products(cell):
    metric = np.array(cell) @ np.array(cell).T
    return float(metric[1, 2]), float(metric[0, 2]), float(metric[0, 1])
''', "get_transformation_matrix": '''
def get_transformation_matrix(original_cell, transformed_cell):
    return (np.array(transformed_cell) @ np.linalg.inv(original_cell)).T
'''})], "C02 C04 C07")
R("reciprocal-cross", [("cell/_basic_manipulation.py", {"get_reciprocal": '''
def get_reciprocal(cell):
    a1, a2, a3 = np.array(cell, dtype=float)
    volume = np.dot(a1, np.cross(a2, a3))
    return 2 * PI / volume * np.array([np.cross(a2, a3), np.cross(a3, a1), np.cross(a1, a2)])
''', "get_transformation_matrix": '''
def get_transformation_matrix(original_cell, transformed_cell):
    return np.linalg.solve(np.transpose(original_cell), np.transpose(transformed_cell))
'''})], "C04")
R("atoms", [("crystal/_atoms.py", {"get_atom_species": '''
def get_atom_species(name: str, raise_on_fail=False) -> str:
    lowered = name.lower()
    candidates = [species for species in ATOM_SPECIES if species.lower() in lowered]
    for species in candidates:
        if len(species) == 2:
            return species
    if candidates:
        return candidates[-1]
    if raise_on_fail:
        raise FailedToDeduceAtomSpecies(name=name)
    import warnings

    warnings.warn(f"Atom species deduction failed for '{name}'. Set species to 'X'", RuntimeWarning)
    return "X"
''', "get_atoms_species": '''
def get_atoms_species(atoms, raise_on_fail=False) -> str:
    validate_atoms(atoms=atoms, required_keys=["names"], raise_errors=True)
    result = []
    for name in atoms["names"]:
        result.append(get_atom_species(name=name, raise_on_fail=raise_on_fail))
    return result
''', "get_unique_names": '''
def _rename_all(names):
    unique_names = []
    n = len(names)
    for i in range(n):
        index = i + 1
        candidate = names[i] + str(index)
        while candidate in unique_names:
            index += n
            candidate = names[i] + str(index)
        unique_names.append(candidate)
    return unique_names


def get_unique_names(atoms, strategy: str = "all") -> list:
    validate_atoms(atoms=atoms, required_keys=["names"], raise_errors=True)
    strategy = strategy.lower()
    if strategy not in ["all", "repeated-only"]:
        raise ValueError(f"{strategy} strategy is not supported.")
    names = atoms["names"]
    if len(names) == len(set(names)):
        return names
    if strategy == "all":
        return _rename_all(names)
    totals = {}
    for name in names:
        totals[name] = totals.get(name, 0) + 1
    taken = {name for name in totals if totals[name] == 1}
    following = dict.fromkeys(totals, 1)
    for i, name in enumerate(list(names)):
        if totals[name] > 1:
            while f"{name}{following[name]}" in taken:
                following[name] += 1
            names[i] = f"{name}{following[name]}"
            taken.add(names[i])
    return names
'''})], "C16 C17")
R("atoms-small", [("crystal/_atoms.py", {"get_atom_species": '''
def get_atom_species(name: str, raise_on_fail=False) -> str:
    name_to_search = name.lower()
    atom_species = "X"
    for trial_species in ATOM_SPECIES:
        if trial_species.lower() not in name_to_search:
            continue
        atom_species = trial_species
        if len(trial_species) == 2:
            break
    if atom_species != "X":
        return atom_species
    if raise_on_fail:
        raise FailedToDeduceAtomSpecies(name=name)
    import warnings

    warnings.warn(f"Atom species deduction failed for '{name}'. Set species to 'X'", RuntimeWarning)
    return atom_species
''', "get_unique_names": '''
def get_unique_names(atoms, strategy: str = "all") -> list:
    validate_atoms(atoms=atoms, required_keys=["names"], raise_errors=True)
    supported = ["all", "repeated-only"]
    strategy = strategy.lower()
    if strategy not in supported:
        raise ValueError("\\n".join([f"  * {i}" for i in supported]))
    original_names = atoms["names"]
    n_atoms = len(original_names)
    unique_names = original_names
    if len(set(original_names)) != n_atoms:
        if strategy == "all":
            unique_names = []
            index = 0
            for name in original_names:
                index += 1
                suffix = index
                while f"{name}{suffix}" in unique_names:
                    suffix = suffix + n_atoms
                unique_names.append(f"{name}{suffix}")
        else:
            counter = {}
            for name in unique_names:
                if name not in counter:
                    counter[name] = [1, 1]
                else:
                    counter[name][1] += 1
            taken = set(name for name in counter if counter[name][1] == 1)
            for i in range(len(unique_names)):
                name = unique_names[i]
                if counter[name][1] > 1:
                    while name + str(counter[name][0]) in taken:
                        counter[name][0] += 1
                    unique_names[i] += str(counter[name][0])
                    taken.add(unique_names[i])
    return unique_names
'''})], "C16 C17")
R("crystal-basic", [("crystal/_basic_manipulation.py", {"shift_atoms": '''
def shift_atoms(atoms, gravity_point=(0.5, 0.5, 0.5), cell=None, gp_is_relative=True) -> None:
    if not gp_is_relative and cell is None:
        raise ValueError("cell is required if gp_is_relative False")
    if not gp_is_relative:
        gravity_point = gravity_point @ np.linalg.inv(cell)
    positions = np.array(atoms["positions"])
    center = (positions.max(axis=0) + positions.min(axis=0)) / 2
    new_positions = []
    for position in atoms["positions"]:
        new_positions.append(position - center + gravity_point)
    atoms["positions"] = new_positions
''', "cure_negative": '''
def cure_negative(atoms) -> None:
    lowest = np.min(np.array(atoms["positions"]), axis=0)
    shift = np.where(lowest < 0, -lowest, 0)
    atoms["positions"] = [shift + position for position in atoms["positions"]]
''', "ensure_000": '''
def _wrap(x):
    x = x - int(x)
    if x < 0:
        x += 1
        if x >= 1:
            x -= 1
    return x


def ensure_000(atoms) -> None:
    for position in atoms["positions"]:
        for j in range(3):
            position[j] = _wrap(position[j])
''', "get_vector": '''
def get_vector(cell, atoms, atom1, atom2, R=(0, 0, 0), return_relative=False) -> np.ndarray:
    positions = atoms["positions"]
    vector = np.array(R, dtype=float)
    vector = vector + positions[atom2]
    vector = vector - positions[atom1]
    return vector if return_relative else vector @ cell
''', "get_distance": '''
def get_distance(cell, atoms, atom1, atom2, R=(0, 0, 0)) -> float:
    vector = get_vector(cell, atoms, atom1, atom2, R)
    return float(np.sqrt(np.sum(vector**2)))
'''})], "C18")
R("validation-helpers", [("crystal/_crystal_validation.py", {"validate_atoms": '''
def _fail(message, raise_errors, kind=ValueError):
    if raise_errors:
        raise kind(message)
    return False


def validate_atoms(atoms, required_keys=None, raise_errors=True):
    lengths = []
    for key in atoms:
        try:
            lengths.append(len(atoms[key]))
        except TypeError as e:
            if raise_errors:
                _raise_with_message(e, f'Failed to count elements of atoms["{key}"].')
            return False
    if len(set(lengths)) > 1:
        return _fail("Inconsistent amount of atoms", raise_errors)
    for key in required_keys or []:
        if key not in atoms:
            return _fail(f'Expected to have the key "{key}" in atoms.', raise_errors)
    if "positions" in atoms:
        try:
            shape = np.array(atoms["positions"]).shape
        except ValueError as e:
            if raise_errors:
                _raise_with_message(e, 'atoms["positions"] is not array-like')
            return False
        if not (len(shape) == 2 and shape[1] == 3):
            return _fail(f'Expected atoms["positions"] to have the shape (N, 3), got {shape}.', raise_errors)
    for name in atoms.get("names", []):
        if not isinstance(name, str):
            return _fail(f"{name} is not a string", raise_errors)
    for species in atoms.get("species", []):
        if not isinstance(species, str):
            return _fail(f"{species} is not a string", raise_errors)
        if species not in ATOM_SPECIES and species != "X":
            return _fail(f"{species} is not a valid species", raise_errors)
    for index, element in enumerate(atoms.get("spglib_types", [])):
        if not isinstance(element, int):
            return _fail(f"{index} {element} is not an integer", raise_errors)
        if element < 1:
            return _fail(f"{index} {element} is less than 1", raise_errors)
    return True
'''})], "C15")
R("validation-any", [("crystal/_crystal_validation.py", {"validate_atoms": '''
def validate_atoms(atoms, required_keys=None, raise_errors=True):
    try:
        _validate(atoms, required_keys if required_keys is not None else [])
    except (TypeError, ValueError):
        if raise_errors:
            raise
        return False
    return True


def _validate(atoms, required_keys):
    lengths = {}
    for key, value in atoms.items():
        lengths[key] = len(value)
    if len(set(lengths.values())) not in [0, 1]:
        raise ValueError("Inconsistent amount of atoms")
    missing = [key for key in required_keys if key not in atoms]
    if missing:
        raise ValueError("Missing keys")
    if "positions" in atoms:
        shape = np.array(atoms["positions"]).shape
        if len(shape) != 2 or shape[1] != 3:
            raise ValueError("Wrong shape of positions")
    if "names" in atoms and not all(isinstance(x, str) for x in atoms["names"]):
        raise ValueError("Names are not strings")
    if "species" in atoms:
        if any(not isinstance(x, str) for x in atoms["species"]):
            raise ValueError("Species are not strings")
        for x in atoms["species"]:
            if not (x == "X" or x in ATOM_SPECIES):
                raise ValueError("Not valid species")
    if "spglib_types" in atoms:
        for x in atoms["spglib_types"]:
            if not isinstance(x, int) or x < 1:
                raise ValueError("Wrong spglib type")
'''})], "C15")
