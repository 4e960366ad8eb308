R("sc-points-helper", [("kpoints/_sc_points.py", {"_get_points_table_10": '''
def _get_points_table_10(a, b, c):
    def fraction(x, y, z):
        return (1 + (x / y) ** 2 - (x / z) ** 2) / 4

    eta = fraction(a, b, c)
    delta = fraction(b, a, c)
    phi = fraction(c, b, a)
    half = 1 / 2
    points = dict(
        GAMMA=[0, 0, 0],
        C=[half, half - eta, 1 - eta],
        C1=[half, half + eta, eta],
        D=[half - delta, half, 1 - delta],
        D1=[half + delta, half, delta],
        L=[half, half, half],
        H=[1 - phi, half - phi, half],
        H1=[phi, half + phi, half],
        X=[0, half, half],
        Y=[half, 0, half],
        Z=[half, half, 0],
    )
    return {name: np.array(point, dtype=float) for name, point in points.items()}
''', "_get_points_table_14": '''
def _get_points_table_14(alpha):
    cos_alpha = cos(alpha * TORADIANS)
    eta = 1 - 1 / (2 + 4 * cos_alpha)
    nu = (3 - 2 * eta) / 4
    names = ["GAMMA", "B", "B1", "F", "L", "L1", "P", "P1", "P2", "Q", "X", "Z"]
    coordinates = np.array([
        [0.0, 0.0, 0.0],
        [eta, 0.5, 1 - eta],
        [0.5, 1 - eta, eta - 1],
        [0.5, 0.5, 0],
        [0.5, 0, 0],
        [0, 0, -0.5],
        [eta, nu, nu],
        [1 - nu, 1 - nu, 1 - eta],
        [nu, nu, eta - 1],
        [1 - nu, nu, 0],
        [nu, 0, -nu],
        [0.5, 0.5, 0.5],
    ])
    return {name: coordinates[i] for i, name in enumerate(names)}
'''})], "C11 C23")
R("sc-points-dispatch", [("kpoints/_sc_points.py", {"_sc_get_points": '''
def _sc_get_points(conventional_cell, lattice_type, lattice_variation):
    a, b, c, alpha, _, _ = get_params(cell=conventional_cell)

    if lattice_type not in SC_BRAVAIS_LATTICE_SHORT_NAMES:
        raise PotentialBugError(
            error_summary=f'(convention="SC"). Unexpected lattice type, got "{lattice_type}".'
        )

    name = SC_BRAVAIS_LATTICE_SHORT_NAMES[lattice_type]
    tables = {
        "CUB": lambda: _get_points_table_2(),
        "FCC": lambda: _get_points_table_3(),
        "BCC": lambda: _get_points_table_4(),
        "TET": lambda: _get_points_table_5(),
        "BCT1": lambda: _get_points_table_6(a=a, c=c),
        "BCT2": lambda: _get_points_table_7(a=a, c=c),
        "ORC": lambda: _get_points_table_8(),
        "ORCF1": lambda: _get_points_table_9(a=a, b=b, c=c),
        "ORCF3": lambda: _get_points_table_9(a=a, b=b, c=c),
        "ORCF2": lambda: _get_points_table_10(a=a, b=b, c=c),
        "ORCI": lambda: _get_points_table_11(a=a, b=b, c=c),
        "ORCC": lambda: _get_points_table_12(a=a, b=b),
        "HEX": lambda: _get_points_table_13(),
        "RHL1": lambda: _get_points_table_14(alpha=alpha),
        "RHL2": lambda: _get_points_table_15(alpha=alpha),
        "MCL": lambda: _get_points_table_16(b=b, c=c, alpha=alpha),
        "MCLC1": lambda: _get_points_table_17(a=a, b=b, c=c, alpha=alpha),
        "MCLC2": lambda: _get_points_table_17(a=a, b=b, c=c, alpha=alpha),
        "MCLC3": lambda: _get_points_table_18(a=a, b=b, c=c, alpha=alpha),
        "MCLC4": lambda: _get_points_table_18(a=a, b=b, c=c, alpha=alpha),
        "MCLC5": lambda: _get_points_table_19(a=a, b=b, c=c, alpha=alpha),
        "TRI1a": lambda: _get_points_table_20(),
        "TRI2a": lambda: _get_points_table_20(),
        "TRI1b": lambda: _get_points_table_21(),
        "TRI2b": lambda: _get_points_table_21(),
    }
    if name in tables:
        return tables[name]()
    if lattice_variation in tables and lattice_variation[: len(name)] == name:
        return tables[lattice_variation]()
    raise PotentialBugError(
        error_summary=f'(convention="SC"), lattice type "{name}". Unexpected lattice variation, got "{lattice_variation}".'
    )
'''})], "C11 C23")
R("hpkot-points-dispatch", [("kpoints/_hpkot_points.py", {"_hpkot_get_points": '''
def _hpkot_get_points(conventional_cell, lattice_type, extended_bl_symbol):
    a, b, c, _, beta, _ = get_params(cell=conventional_cell)
    lengths = dict(a=a, b=b, c=c)
    tetragonal = dict(a=a, c=c)
    monoclinic = dict(a=a, b=b, c=c, beta=beta)
    tables = {
        "cP1": (_get_points_table_69, {}), "cP2": (_get_points_table_69, {}),
        "cF1": (_get_points_table_70, {}), "cF2": (_get_points_table_70, {}),
        "cI1": (_get_points_table_71, {}), "tP1": (_get_points_table_72, {}),
        "tI1": (_get_points_table_73, tetragonal), "tI2": (_get_points_table_74, tetragonal),
        "oP1": (_get_points_table_75, {}), "oF1": (_get_points_table_76, lengths),
        "oF2": (_get_points_table_77, lengths), "oF3": (_get_points_table_78, lengths),
        "oI1": (_get_points_table_79, lengths), "oI2": (_get_points_table_80, lengths),
        "oI3": (_get_points_table_81, lengths),
        "hP1": (_get_points_table_84, {}), "hP2": (_get_points_table_84, {}),
        "hR1": (_get_points_table_85, tetragonal), "hR2": (_get_points_table_86, tetragonal),
        "mP1": (_get_points_table_87, dict(a=a, c=c, beta=beta)),
        "mC1": (_get_points_table_88, monoclinic), "mC2": (_get_points_table_89, monoclinic),
        "mC3": (_get_points_table_90, monoclinic),
        "aP2": (_get_points_table_91, {}), "aP3": (_get_points_table_92, {}),
    }
    for first in "CA":
        for number, table in [("1", _get_points_table_82), ("2", _get_points_table_83)]:
            tables["o" + first + number] = (table, dict(lattice_type=lattice_type, **lengths))
    try:
        table, arguments = tables[extended_bl_symbol]
    except KeyError:
        raise PotentialBugError(
            error_summary=f'(convention="HPKOT"). Unexpected extended Bravais lattice symbol, got "{extended_bl_symbol}".'
        )
    return table(**arguments)
'''})], "C11 C23")
R("sc-example-dispatch", [("cell/_sc_examples.py", {"SC_HEX": '''
def SC_HEX(a: float, c: float):
    half, height = a / 2, a * sqrt(3) / 2
    cell = np.zeros((3, 3))
    cell[0] = half, -height, 0
    cell[1] = half, height, 0
    cell[2, 2] = c
    return cell
''', "SC_ORCI": '''
def SC_ORCI(a: float, b: float, c: float):
    signs = 1 - 2 * np.eye(3)
    return signs * np.array([a, b, c]) / 2
''', "SC_CUB": '''
def SC_CUB(a: float):
    return SC_ORC(a, a, a)
''', "SC_TET": '''
def SC_TET(a: float, c: float):
    return SC_ORC(a, a, c)
''', "SC_ORC": '''
def SC_ORC(a: float, b: float, c: float):
    return np.diag([a, b, c])
''', "SC_BCC": '''
def SC_BCC(a: float):
    return SC_ORCI(a, a, a)
''', "SC_RHL": '''
def SC_RHL(a: float, alpha: float):
    alpha = alpha * TORADIANS
    x = a * cos(alpha / 2)
    y = a * sin(alpha / 2)
    ratio = cos(alpha) / cos(alpha / 2)
    return np.array([[x, -y, 0], [x, y, 0], [a * ratio, 0, a * sqrt(1 - ratio**2)]])
'''})], "C20")
