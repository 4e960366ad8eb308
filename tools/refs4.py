R("kp-setter", [("_kpoints_class.py", {"Kpoints.remove_hs_point": '''
def remove_hs_point(self, name) -> None:
    if name not in self.hs_names:
        return
    self.hs_names.remove(name)
    self.hs_coordinates.pop(name)
    self.hs_labels.pop(name)
    pieces = []
    for subpath in self._path:
        current = []
        for point in subpath:
            if point == name:
                pieces.append(current)
                current = []
                continue
            current.append(point)
        pieces.append(current)
    self._path = [piece for piece in pieces if len(piece) > 1]
''', "Kpoints.ticks": '''
def ticks(self, relative=False):
    cell = np.eye(3) if relative else self.rcell
    ticks = [0] if len(self.path) > 0 else []
    for subpath in self.path:
        for first, second in zip(subpath[:-1], subpath[1:]):
            difference = self.hs_coordinates[second] @ cell - self.hs_coordinates[first] @ cell
            ticks.append(ticks[-1] + np.linalg.norm(difference))
    return np.array(ticks)
'''})], "C13")
R("niggli-45", [("cell/_niggli.py", {"_positive_product": '''
def _positive_product(xi, eta, zeta, eps):
    n_positive = 0
    n_zero = 0
    for value in (xi, eta, zeta):
        if compare_with_tolerance(value, ">", 0, eps=eps):
            n_positive += 1
        elif compare_with_tolerance(value, "==", 0, eps=eps):
            n_zero += 1
    if n_positive == 3:
        return True
    return n_positive == 1 and n_zero == 0
''', "_niggli_step_4": '''
def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
    if _positive_product(xi, eta, zeta, eps=eps):
        return False, (A, B, C, xi, eta, zeta), trans_matrix
    signs = [1, 1, 1]
    free = None
    for index, value in enumerate((xi, eta, zeta)):
        if compare_with_tolerance(value, ">", 0, eps=eps):
            signs[index] = -1
        elif not compare_with_tolerance(value, "<", 0, eps=eps):
            free = index
    if signs[0] * signs[1] * signs[2] < 0 and free is not None:
        signs[free] = -1
    trans_matrix = trans_matrix @ np.diag(signs)
    return True, (A, B, C, -abs(xi), -abs(eta), -abs(zeta)), trans_matrix
''', "_niggli_step_5": '''
def _niggli_step_5(A, B, C, xi, eta, zeta, trans_matrix, eps):
    if compare_with_tolerance(abs(xi), ">", B, eps=eps):
        condition = True
    elif compare_with_tolerance(xi, "==", B, eps=eps) and compare_with_tolerance(2 * eta, "<", zeta, eps=eps):
        condition = True
    else:
        condition = compare_with_tolerance(xi, "==", -B, eps=eps) and compare_with_tolerance(zeta, "<", 0, eps=eps)
    if not condition:
        return condition, (A, B, C, xi, eta, zeta), trans_matrix
    sign = np.sign(xi)
    step = np.eye(3, dtype=int)
    step[1, 2] = -sign
    return condition, (A, B, B + C - sign * xi, xi - 2 * sign * B, eta - sign * zeta, zeta), trans_matrix @ step
'''})], "C05")
R("conv-tables", [("crystal/_conventional.py", {"_sc_get_conventional_oC": '''
def _sc_get_conventional_oC(spglib_std_lattice):
    a, b = get_params(cell=spglib_std_lattice)[:2]
    if b < a:
        return np.array([spglib_std_lattice[1], -np.asarray(spglib_std_lattice[0]), spglib_std_lattice[2]])
    return np.eye(3, dtype=float) @ spglib_std_lattice
''', "_sc_get_conventional_hR": '''
def _sc_get_conventional_hR(spglib_primitive_cell, angle_tolerance=1e-4, distance_tolerance=1e-5):
    params = get_params(cell=spglib_primitive_cell)
    lengths, angles = params[:3], params[3:]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        if cwt(lengths[i], "!=", lengths[j], eps=distance_tolerance):
            raise PotentialBugError(
                '(convention="SC"): hR lattice. Lattice vectors have different lengths '
                f"with the precision of {distance_tolerance:.5e}"
            )
    alpha, beta, gamma = angles

    def equal(x, y):
        return cwt(x, "==", y, eps=angle_tolerance)

    if equal(alpha, beta) and equal(alpha, gamma):
        signs = [1, 1, 1]
    elif equal(180 - alpha, beta) and equal(beta, gamma):
        signs = [1, -1, -1]
    elif equal(alpha, 180 - beta) and equal(alpha, gamma):
        signs = [-1, 1, -1]
    elif equal(alpha, beta) and equal(beta, 180 - gamma):
        signs = [-1, -1, 1]
    else:
        raise PotentialBugError('(convention="SC"): hR lattice. Angles can not be made equal.')
    return np.diag(signs) @ spglib_primitive_cell
''', "_sc_get_conventional_no_hR": '''
def _sc_get_conventional_no_hR(spglib_std_lattice, crystal_family, centring_type, angle_tolerance=1e-4):
    if crystal_family == "a":
        return _sc_get_conventional_a(spglib_std_lattice=spglib_std_lattice, angle_tolerance=angle_tolerance)
    if crystal_family == "m":
        return _sc_get_conventional_m(
            spglib_std_lattice=spglib_std_lattice, centring_type=centring_type, angle_tolerance=angle_tolerance
        )
    if crystal_family in ("c", "t") or crystal_family + centring_type == "hP":
        return spglib_std_lattice
    if crystal_family == "o":
        if centring_type in "PFI":
            return _sc_get_conventional_oPFI(spglib_std_lattice=spglib_std_lattice)
        if centring_type == "A":
            spglib_std_lattice = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]) @ spglib_std_lattice
            return _sc_get_conventional_oC(spglib_std_lattice)
        if centring_type == "C":
            return _sc_get_conventional_oC(spglib_std_lattice)
        raise PotentialBugError(f'(convention="sc"): crystal family "o". Unexpected centring type "{centring_type}".')
    raise PotentialBugError(f'(convention="sc"): unexpected crystal family "{crystal_family}".')
'''})], "C07")
R("basic-vector", [("crystal/_basic_manipulation.py", {"cure_negative": '''
def cure_negative(atoms) -> None:
    lowest = np.min(np.array([list(position) for position in atoms["positions"]]), axis=0)
    shift = -np.minimum(lowest, 0)
    atoms["positions"] = [position + shift for position in atoms["positions"]]
''', "ensure_000": '''
def ensure_000(atoms) -> None:
    for position in atoms["positions"]:
        for j in range(3):
            value = position[j] - int(position[j])
            if value < 0:
                value = value + 1
                if value >= 1:
                    value = value - 1
            position[j] = value
''', "get_distance": '''
def get_distance(cell, atoms, atom1, atom2, R=(0, 0, 0)) -> float:
    vector = get_vector(cell, atoms, atom1, atom2, R)
    return float(np.sqrt(vector @ vector))
'''})], "C18")
R("sugar-remove", [("_syntactic_sugar.py", {"remove_sugar": '''
def remove_sugar(candy: dict) -> dict:
    if isinstance(candy, dict):
        return {key: value for key, value in candy.items()}
    raise ValueError(f"Failed to remove sugar: candy should be an instance of python dict, got {type(candy)}.")
''', "SyntacticSugar.__getattr__": '''
def __getattr__(self, key):
    if key not in self:
        raise AttributeError(key)
    return self[key]
'''})], "C22")
R("variations", [("crystal/_sc_variation.py", {"_TRI_variation": '''
def _TRI_variation(k_alpha: float, k_beta: float, k_gamma: float, angle_tolerance=1e-4):
    def greater(x):
        return cwt(x, ">", 90, eps=angle_tolerance)

    def less(x):
        return cwt(x, "<", 90, eps=angle_tolerance)

    for angle in (k_alpha, k_beta):
        if cwt(angle, "==", 90, eps=angle_tolerance):
            raise ValueError(f'(convention="SC"): TRI variation. k_alpha == 90 or k_beta == 90 with {angle_tolerance} tolerance.')
    if cwt(k_gamma, "==", 90, eps=angle_tolerance):
        if greater(k_alpha) and greater(k_beta):
            return "TRI2a"
        if less(k_alpha) and less(k_beta):
            return "TRI2b"
        return None
    angles = [k_alpha, k_beta, k_gamma]
    if all(greater(x) for x in angles):
        return "TRI1a"
    if all([less(x) for x in angles]):
        return "TRI1b"
    return "TRI"
''', "_ORCF_variation": '''
def _ORCF_variation(conv_a: float, conv_b: float, conv_c: float, distance_tolerance=1e-8):
    ordered = cwt(conv_a, "<", conv_b, eps=distance_tolerance) and cwt(conv_b, "<", conv_c, eps=distance_tolerance)
    if not ordered:
        raise ValueError(f'(convention="SC"): ORCF variation. a < b < c is not satisfied with {distance_tolerance} tolerance.')
    expression = conv_a**-2 - (conv_b**-2 + conv_c**-2)
    if cwt(expression, ">", 0, eps=distance_tolerance):
        return "ORCF1"
    return "ORCF2" if cwt(expression, "<", 0, eps=distance_tolerance) else "ORCF3"
''', "_MCLC_variation": '''
def _MCLC_variation(
    conv_a: float,
    conv_b: float,
    conv_c: float,
    conv_alpha: float,
    prim_k_gamma: float,
    distance_tolerance=1e-8,
    angle_tolerance=1e-4,
):
    if cwt(conv_alpha, ">", 90, eps=angle_tolerance):
        raise ValueError(f'(convention="SC"): MCLC variation. alpha > 90 with {angle_tolerance} tolerance:\\n  alpha = {conv_alpha}\\n')
    if cwt(prim_k_gamma, ">", 90, eps=angle_tolerance):
        return "MCLC1"
    if cwt(prim_k_gamma, "==", 90, eps=angle_tolerance):
        return "MCLC2"
    alpha = conv_alpha * TORADIANS
    value = conv_b * cos(alpha) / conv_c + (conv_b * sin(alpha) / conv_a) ** 2
    for sign, name in (("<", "MCLC3"), (">", "MCLC5"), ("==", "MCLC4")):
        if cwt(value, sign, 1, eps=distance_tolerance):
            return name
'''})], "C09")
R("cell-basic", [("cell/_basic_manipulation.py", {"get_transformation_matrix": '''
def get_transformation_matrix(original_cell, transformed_cell):
    return (np.array(transformed_cell) @ np.linalg.inv(np.array(original_cell))).T
''', "get_scalar_products": '''
def get_scalar_products(cell):
    gram = np.array(cell) @ np.array(cell).T
    return float(gram[1, 2]), float(gram[0, 2]), float(gram[0, 1])
'''})], "C02 C04")
R("unique-all", [("crystal/_atoms.py", {"get_unique_names": '''
def _all_names(names):
    result = []
    step = len(names)
    for index, name in enumerate(names, start=1):
        candidate = f"{name}{index}"
        while candidate in result:
            index += step
            candidate = f"{name}{index}"
        result.append(candidate)
    return result


def get_unique_names(atoms, strategy: str = "all") -> list:
    validate_atoms(atoms=atoms, required_keys=["names"], raise_errors=True)
    strategy = strategy.lower()
    if strategy not in ("all", "repeated-only"):
        raise ValueError(f"{strategy} strategy is not supported. Supported are: all, repeated-only")
    unique_names = atoms["names"]
    if len(set(unique_names)) == len(unique_names):
        return unique_names
    if strategy == "all":
        return _all_names(unique_names)
    counter = {}
    for name in unique_names:
        if name not in counter:
            counter[name] = [1, 1]
        else:
            counter[name][1] += 1
    taken = set(name for name in counter if counter[name][1] == 1)
    for i in range(len(unique_names)):
        name = unique_names[i]
        if counter[name][1] > 1:
            while name + str(counter[name][0]) in taken:
                counter[name][0] += 1
            unique_names[i] += str(counter[name][0])
            taken.add(unique_names[i])
    return unique_names
'''})], "C17")
R("path-list", [("kpoints/_path_and_points.py", {"get_path_as_list": '''
def get_path_as_list(path_as_string) -> list:
    if not isinstance(path_as_string, str):
        raise ValueError(f"path_as_string is not a string: {path_as_string}")
    path = [subpath.split("-") for subpath in path_as_string.split("|")]
    for index, subpath in enumerate(path, 1):
        if len(subpath) < 2:
            raise ValueError(f"Subpath {index} has less than two points: {subpath[0]}")
    return path
''', "get_path_as_string": '''
def get_path_as_string(path_as_list) -> str:
    if not isinstance(path_as_list, Iterable):
        raise ValueError(f"path_as_list is not Iterable, can not convert to string:\\n{path_as_list}")
    for index, subpath in enumerate(path_as_list):
        if not isinstance(subpath, Iterable):
            raise ValueError(f"Subpath {index + 1} is not Iterable, can not convert to string:\\n{subpath}")
    return "|".join(["-".join(subpath) for subpath in path_as_list])
'''})], "C12 C11")
R("sc-table7", [("kpoints/_sc_points.py", {"_get_points_table_2": '''
def _get_points_table_2():
    points = {"GAMMA": np.zeros(3)}
    for name, coordinates in (("M", (1, 1, 0)), ("R", (1, 1, 1)), ("X", (0, 1, 0))):
        points[name] = np.array(coordinates) / 2
    return points
'''})], "C23 C11")
