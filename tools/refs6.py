R("kp-concat", [("_kpoints_class.py", {"Kpoints.points": '''
def points(self, relative=False):
    cell = np.eye(3) if relative else self.rcell
    parts = [
        np.linspace(self.hs_coordinates[first] @ cell, self.hs_coordinates[second] @ cell, self._n + 2)
        for subpath in self.path
        for first, second in zip(subpath, subpath[1:])
    ]
    if len(parts) == 0:
        return np.zeros((0, 3), dtype=float)
    return np.concatenate(parts)
''', "Kpoints.labels": '''
@property
def labels(self) -> list:
    labels = []
    for subpath in self.path:
        current = [self.hs_labels[name] for name in subpath]
        if labels:
            labels[-1] = f"{labels[-1]}|{current.pop(0)}"
        labels.extend(current)
    return labels
'''})], "C13")
R("kp-flat-loop", [("_kpoints_class.py", {"Kpoints.flat_points": '''
def flat_points(self, relative=False):
    cell = np.eye(3) if relative else self.rcell
    flat_points = np.zeros(0, dtype=float)
    for subpath in self.path:
        for name, next_name in zip(subpath[:-1], subpath[1:]):
            start = self.hs_coordinates[name] @ cell
            stop = self.hs_coordinates[next_name] @ cell
            delta = np.linalg.norm(np.linspace(start, stop, self._n + 2) - start, axis=1)
            if len(flat_points) > 0:
                delta = delta + flat_points[-1]
            flat_points = np.concatenate((flat_points, delta))
    return flat_points
''', "Kpoints.add_hs_point": '''
def add_hs_point(self, name, coordinate, label=None, relative=True) -> None:
    if name in self.hs_coordinates:
        raise ValueError(f'Point "{name}" already defined.')
    coordinate = np.array(coordinate, dtype=float)
    if not relative:
        coordinate = coordinate @ np.linalg.inv(self.rcell)
    self.hs_coordinates[name] = coordinate
    self.hs_labels[name] = name if label is None else label
    self.hs_names.append(name)
'''})], "C13")
R("names-repeated", [("crystal/_atoms.py", {"get_unique_names": '''
def get_unique_names(atoms, strategy: str = "all") -> list:
    validate_atoms(atoms=atoms, required_keys=["names"], raise_errors=True)
    SUPPORTED_STRATEGIES = ["all", "repeated-only"]
    strategy = strategy.lower()
    if strategy not in SUPPORTED_STRATEGIES:
        raise ValueError(f"{strategy} strategy is not supported. Supported are:\\n" + "\\n".join([f"  * {i}" for i in SUPPORTED_STRATEGIES]))
    names = atoms["names"]
    if len(set(names)) == len(names):
        return names
    if strategy == "all":
        unique_names = []
        step = len(names)
        for i, name in enumerate(names, start=1):
            index = i
            while name + str(index) in unique_names:
                index += step
            unique_names.append(name + str(index))
        return unique_names
    total = {}
    for name in names:
        total[name] = total.get(name, 0) + 1
    taken = {name for name, amount in total.items() if amount == 1}
    following = {name: 1 for name in total}
    for i, name in enumerate(names):
        if total[name] == 1:
            continue
        while f"{name}{following[name]}" in taken:
            following[name] += 1
        names[i] = f"{name}{following[name]}"
        taken.add(names[i])
    return names
''', "get_atom_species": '''
def get_atom_species(name: str, raise_on_fail=False) -> str:
    lower = name.lower()
    found = [species for species in ATOM_SPECIES if species.lower() in lower]
    double = [species for species in found if len(species) == 2]
    if double:
        return double[0]
    if found:
        return found[-1]
    if raise_on_fail:
        raise FailedToDeduceAtomSpecies(name=name)
    import warnings
    warnings.warn(f"Atom species deduction failed for '{name}'. Set species to 'X'", RuntimeWarning)
    return "X"
'''})], "C17")
R("types-index", [("_spglib_interface.py", {"get_spglib_types": '''
def get_spglib_types(atoms):
    validate_atoms(atoms=atoms, raise_errors=True)
    if "spglib_types" in atoms:
        return atoms["spglib_types"]
    if "species" in atoms:
        identifiers = atoms["species"]
    elif "names" in atoms:
        identifiers = []
        for name in atoms["names"]:
            species = get_atom_species(name=name, raise_on_fail=False)
            identifiers.append(name if species == "X" else species)
    else:
        raise ValueError('Expected at least one of "spglib_types", "species" or "names" keys in "atoms", found none.')
    distinct = sorted(set(identifiers))
    return [distinct.index(identifier) + 1 for identifier in identifiers]
'''})], "C16")
R("shift-array", [("crystal/_basic_manipulation.py", {"shift_atoms": '''
def shift_atoms(atoms, gravity_point=(0.5, 0.5, 0.5), cell=None, gp_is_relative=True) -> None:
    if not gp_is_relative:
        if cell is None:
            raise ValueError("cell is required if gp_is_relative False")
        gravity_point = gravity_point @ np.linalg.inv(cell)
    positions = np.array(atoms["positions"])
    centre = (positions.max(axis=0) + positions.min(axis=0)) / 2
    atoms["positions"] = [position - centre + gravity_point for position in atoms["positions"]]
''', "cure_negative": '''
def cure_negative(atoms) -> None:
    lowest = np.min(atoms["positions"], axis=0)
    shift = np.maximum(-lowest, 0)
    atoms["positions"] = [position + shift for position in atoms["positions"]]
'''})], "C18")
R("vasp-grouped", [("io/_vasp.py", {"dump_poscar": '''
def dump_poscar(cell, atoms, file_object="POSCAR", comment: str = None, decimals=8, mode: str = "Direct"):
    cell = np.array(cell, dtype=float)
    if comment is None:
        cd = datetime.now()
        comment = f"Written by wulfric (wulfric.org) on {cd.day} {month_name[cd.month]} {cd.year} at {cd.hour}:{cd.minute}:{cd.second}"
    else:
        comment = comment.replace("\\r", " ").replace("\\n", " ")
    if mode not in ("Direct", "Cartesian"):
        raise ValueError(f'mode has to be "Direct" or "Cartesian", given: {mode}')
    groups = {}
    for i, position in enumerate(atoms["positions"]):
        if "species" in atoms:
            species = atoms["species"][i]
        else:
            species = get_atom_species(atoms["names"][i])
            if species == "X":
                raise ValueError(f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR.")
        if mode == "Cartesian":
            position = position @ cell
        if species not in groups:
            groups[species] = []
        groups[species].append(position)
    ordered = sorted(groups)
    if isinstance(file_object, str):
        file_object = open(file_object, "w", encoding="utf-8")

    def row(values):
        return "".join([f"{value:{decimals+5}.{decimals}f} " for value in values]) + "\\n"

    file_object.write(comment + "\\n")
    file_object.write("1.0\\n")
    for vector in cell:
        file_object.write(row(vector))
    file_object.write("".join([f"{species} " for species in ordered]) + "\\n")
    file_object.write("".join([f"{len(groups[species])} " for species in ordered]) + "\\n")
    file_object.write(mode + "\\n")
    for species in ordered:
        for position in groups[species]:
            file_object.write(row(position))
'''})], "C14")
