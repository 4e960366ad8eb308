"""Published coordinates of the high-symmetry points (relative to the primitive reciprocal cell).

HPKOT: Y. Hinuma et al., Comput. Mater. Sci. 128, 140 (2017), tables 69-92.
SC: W. Setyawan and S. Curtarolo, Comput. Mater. Sci. 49, 299 (2010), tables 2-21.

The tables are functions of the parameters a, b, c, alpha, beta of the conventional cell.
Independent cross-check: every point other than GAMMA lies on the boundary of the Brillouin
zone (rt/c23.py), the only exception being SC MCLC1/MCLC2 point F3, which is in no path.
"""
import math

HPKOT_TABLES = {
    69: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'R': '1 / 2, 1 / 2, 1 / 2',
            'M': '1 / 2, 1 / 2, 0.0',
            'X': '0.0, 1 / 2, 0.0',
            'X1': '1 / 2, 0.0, 0.0',
        },
    ),
    70: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'X': '1 / 2, 0.0, 1 / 2',
            'L': '1 / 2, 1 / 2, 1 / 2',
            'W': '1 / 2, 1 / 4, 3 / 4',
            'W2': '3 / 4, 1 / 4, 1 / 2',
            'K': '3 / 8, 3 / 8, 3 / 4',
            'U': '5 / 8, 1 / 4, 5 / 8',
        },
    ),
    71: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'H': '1 / 2, -1 / 2, 1 / 2',
            'P': '1 / 4, 1 / 4, 1 / 4',
            'N': '0.0, 0.0, 1 / 2',
        },
    ),
    72: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Z': '0.0, 0.0, 1 / 2',
            'M': '1 / 2, 1 / 2, 0.0',
            'A': '1 / 2, 1 / 2, 1 / 2',
            'R': '0.0, 1 / 2, 1 / 2',
            'X': '0.0, 1 / 2, 0.0',
        },
    ),
    73: (
        {'eta': '(1 + (c / a) ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'M': '-1 / 2, 1 / 2, 1 / 2',
            'X': '0.0, 0.0, 1 / 2',
            'P': '1 / 4, 1 / 4, 1 / 4',
            'Z': 'eta, eta, -eta',
            'Z0': '-eta, 1 - eta, eta',
            'N': '0.0, 1 / 2, 0.0',
        },
    ),
    74: (
        {'eta': '(1 + (a / c) ** 2) / 4', 'zeta': '(a / c) ** 2 / 2'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'M': '1 / 2, 1 / 2, -1 / 2',
            'X': '0.0, 0.0, 1 / 2',
            'P': '1 / 4, 1 / 4, 1 / 4',
            'N': '0.0, 1 / 2, 0.0',
            'S0': '-eta, eta, eta',
            'S': 'eta, 1 - eta, -eta',
            'R': '-zeta, zeta, 1 / 2',
            'G': '1 / 2, 1 / 2, -zeta',
        },
    ),
    75: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'X': '1 / 2, 0.0, 0.0',
            'Z': '0.0, 0.0, 1 / 2',
            'U': '1 / 2, 0.0, 1 / 2',
            'Y': '0.0, 1 / 2, 0.0',
            'S': '1 / 2, 1 / 2, 0.0',
            'T': '0.0, 1 / 2, 1 / 2',
            'R': '1 / 2, 1 / 2, 1 / 2',
        },
    ),
    76: (
        {'zeta': '(1 + (a / b) ** 2 - (a / c) ** 2) / 4', 'eta': '(1 + (a / b) ** 2 + (a / c) ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'T': '1.0, 1 / 2, 1 / 2',
            'Z': '1 / 2, 1 / 2, 0.0',
            'Y': '1 / 2, 0.0, 1 / 2',
            'SIGMA0': '0.0, eta, eta',
            'U0': '1.0, 1 - eta, 1 - eta',
            'A0': '1 / 2, 1 / 2 + zeta, zeta',
            'C0': '1 / 2, 1 / 2 - zeta, 1 - zeta',
            'L': '1 / 2, 1 / 2, 1 / 2',
        },
    ),
    77: (
        {'zeta': '(1 + (c / a) ** 2 - (c / b) ** 2) / 4', 'eta': '(1 + (c / a) ** 2 + (c / b) ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'T': '0.0, 1 / 2, 1 / 2',
            'Z': '1 / 2, 1 / 2, 1.0',
            'Y': '1 / 2, 0.0, 1 / 2',
            'LAMBDA0': 'eta, eta, 0.0',
            'Q0': '1 - eta, 1 - eta, 1.0',
            'G0': '1 / 2 - zeta, 1 - zeta, 1 / 2',
            'H0': '1 / 2 + zeta, zeta, 1 / 2',
            'L': '1 / 2, 1 / 2, 1 / 2',
        },
    ),
    78: (
        {'eta': '(1 + (a / b) ** 2 - (a / c) ** 2) / 4', 'delta': '(1 + (b / a) ** 2 - (b / c) ** 2) / 4', 'phi': '(1 + (c / b) ** 2 - (c / a) ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'T': '0.0, 1 / 2, 1 / 2',
            'Z': '1 / 2, 1 / 2, 0.0',
            'Y': '1 / 2, 0.0, 1 / 2',
            'A0': '1 / 2, 1 / 2 + eta, eta',
            'C0': '1 / 2, 1 / 2 - eta, 1 - eta',
            'B0': '1 / 2 + delta, 1 / 2, delta',
            'D0': '1 / 2 - delta, 1 / 2, 1 - delta',
            'G0': 'phi, 1 / 2 + phi, 1 / 2',
            'H0': '1 - phi, 1 / 2 - phi, 1 / 2',
            'L': '1 / 2, 1 / 2, 1 / 2',
        },
    ),
    79: (
        {'zeta': '(1 + (a / c) ** 2) / 4', 'eta': '(1 + (b / c) ** 2) / 4', 'delta': '(b ** 2 - a ** 2) / 4 / c ** 2', 'mu': '(a ** 2 + b ** 2) / 4 / c ** 2'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'X': '1 / 2, 1 / 2, -1 / 2',
            'S': '1 / 2, 0.0, 0.0',
            'R': '0.0, 1 / 2, 0.0',
            'T': '0.0, 0.0, 1 / 2',
            'W': '1 / 4, 1 / 4, 1 / 4',
            'SIGMA0': '-zeta, zeta, zeta',
            'F2': 'zeta, 1 - zeta, -zeta',
            'Y0': 'eta, -eta, eta',
            'U0': '1 - eta, eta, -eta',
            'L0': '-mu, mu, 1 / 2 - delta',
            'M0': 'mu, -mu, 1 / 2 + delta',
            'J0': '1 / 2 - delta, 1 / 2 + delta, -mu',
        },
    ),
    80: (
        {'zeta': '(1 + (b / a) ** 2) / 4', 'eta': '(1 + (c / a) ** 2) / 4', 'delta': '(c ** 2 - b ** 2) / 4 / a ** 2', 'mu': '(b ** 2 + c ** 2) / 4 / a ** 2'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'X': '-1 / 2, 1 / 2, 1 / 2',
            'S': '1 / 2, 0.0, 0.0',
            'R': '0.0, 1 / 2, 0.0',
            'T': '0.0, 0.0, 1 / 2',
            'W': '1 / 4, 1 / 4, 1 / 4',
            'Y0': 'zeta, -zeta, zeta',
            'U2': '-zeta, zeta, 1 - zeta',
            'LAMBDA0': 'eta, eta, -eta',
            'G2': '-eta, 1 - eta, eta',
            'K': '1 / 2 - delta, -mu, mu',
            'K2': '1 / 2 + delta, mu, -mu',
            'K4': '-mu, 1 / 2 - delta, 1 / 2 + delta',
        },
    ),
    81: (
        {'zeta': '(1 + (c / b) ** 2) / 4', 'eta': '(1 + (a / b) ** 2) / 4', 'delta': '(a ** 2 - c ** 2) / 4 / b ** 2', 'mu': '(c ** 2 + a ** 2) / 4 / b ** 2'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'X': '1 / 2, -1 / 2, 1 / 2',
            'S': '1 / 2, 0.0, 0.0',
            'R': '0.0, 1 / 2, 0.0',
            'T': '0.0, 0.0, 1 / 2',
            'W': '1 / 4, 1 / 4, 1 / 4',
            'SIGMA0': '-eta, eta, eta',
            'F0': 'eta, -eta, 1 - eta',
            'LAMBDA0': 'zeta, zeta, -zeta',
            'G0': '1 - zeta, -zeta, zeta',
            'V0': 'mu, 1 / 2 - delta, -mu',
            'H0': '-mu, 1 / 2 + delta, mu',
            'H2': '1 / 2 + delta, -mu, 1 / 2 - delta',
        },
    ),
    82: (
        {'zeta@oA': '(1 + (b / c) ** 2) / 4', 'zeta@oC': '(1 + (a / b) ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Y': '-1 / 2, 1 / 2, 0.0',
            'T': '-1 / 2, 1 / 2, 1 / 2',
            'Z': '0.0, 0.0, 1 / 2',
            'S': '0.0, 1 / 2, 0.0',
            'R': '0.0, 1 / 2, 1 / 2',
            'SIGMA0': 'zeta, zeta, 0.0',
            'C0': '-zeta, 1 - zeta, 0.0',
            'A0': 'zeta, zeta, 1 / 2',
            'E0': '-zeta, 1 - zeta, 1 / 2',
        },
    ),
    83: (
        {'zeta@oA': '(1 + (c / b) ** 2) / 4', 'zeta@oC': '(1 + (b / a) ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Y': '1 / 2, 1 / 2, 0.0',
            'T': '1 / 2, 1 / 2, 1 / 2',
            'T2': '1 / 2, 1 / 2, -1 / 2',
            'Z': '0.0, 0.0, 1 / 2',
            'Z2': '0.0, 0.0, -1 / 2',
            'S': '0.0, 1 / 2, 0.0',
            'R': '0.0, 1 / 2, 1 / 2',
            'R2': '0.0, 1 / 2, -1 / 2',
            'DELTA0': '-zeta, zeta, 0.0',
            'F0': 'zeta, 1 - zeta, 0.0',
            'B0': '-zeta, zeta, 1 / 2',
            'B2': '-zeta, zeta, -1 / 2',
            'G0': 'zeta, 1 - zeta, 1 / 2',
            'G2': 'zeta, 1 - zeta, -1 / 2',
        },
    ),
    84: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'A': '0.0, 0.0, 1 / 2',
            'K': '1 / 3, 1 / 3, 0.0',
            'H': '1 / 3, 1 / 3, 1 / 2',
            'H2': '1 / 3, 1 / 3, -1 / 2',
            'M': '1 / 2, 0.0, 0.0',
            'L': '1 / 2, 0.0, 1 / 2',
        },
    ),
    85: (
        {'delta': '(a / c) ** 2 / 4', 'eta': '5 / 6 - 2 * delta', 'nu': '1 / 3 + delta'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'T': '1 / 2, 1 / 2, 1 / 2',
            'L': '1 / 2, 0.0, 0.0',
            'L2': '0.0, -1 / 2, 0.0',
            'L4': '0.0, 0.0, -1 / 2',
            'F': '1 / 2, 0.0, 1 / 2',
            'F2': '1 / 2, 1 / 2, 0.0',
            'S0': 'nu, -nu, 0.0',
            'S2': '1 - nu, 0.0, nu',
            'S4': 'nu, 0.0, -nu',
            'S6': '1 - nu, nu, 0.0',
            'H0': '1 / 2, -1 + eta, 1 - eta',
            'H2': 'eta, 1 - eta, 1 / 2',
            'H4': 'eta, 1 / 2, 1 - eta',
            'H6': '1 / 2, 1 - eta, -1 + eta',
            'M0': 'nu, -1 + eta, nu',
            'M2': '1 - nu, 1 - eta, 1 - nu',
            'M4': 'eta, nu, nu',
            'M6': '1 - nu, 1 - nu, 1 - eta',
            'M8': 'nu, nu, -1 + eta',
        },
    ),
    86: (
        {'zeta': '1 / 6 - (c / a) ** 2 / 9', 'eta': '1 / 2 - 2 * zeta', 'nu': '1 / 2 + zeta'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'T': '1 / 2, -1 / 2, 1 / 2',
            'P0': 'eta, -1 + eta, eta',
            'P2': 'eta, eta, eta',
            'R0': '1 - eta, -eta, -eta',
            'M': '1 - nu, -nu, 1 - nu',
            'M2': 'nu, -1 + nu, -1 + nu',
            'L': '1 / 2, 0.0, 0.0',
            'F': '1 / 2, -1 / 2, 0.0',
        },
    ),
    87: (
        {'eta': '(1 + a / c * cos(beta)) / 2 / sin(beta) ** 2', 'nu': '1 / 2 + eta * c * cos(beta) / a'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Z': '0.0, 1 / 2, 0.0',
            'B': '0.0, 0.0, 1 / 2',
            'B2': '0.0, 0.0, -1 / 2',
            'Y': '1 / 2, 0.0, 0.0',
            'Y2': '-1 / 2, 0.0, 0.0',
            'C': '1 / 2, 1 / 2, 0.0',
            'C2': '-1 / 2, 1 / 2, 0.0',
            'D': '0.0, 1 / 2, 1 / 2',
            'D2': '0.0, 1 / 2, -1 / 2',
            'A': '-1 / 2, 0.0, 1 / 2',
            'E': '-1 / 2, 1 / 2, 1 / 2',
            'H': '-eta, 0.0, 1 - nu',
            'H2': '-1 + eta, 0.0, nu',
            'H4': '-eta, 0.0, -nu',
            'M': '-eta, 1 / 2, 1 - nu',
            'M2': '-1 + eta, 1 / 2, nu',
            'M4': '-eta, 1 / 2, -nu',
        },
    ),
    88: (
        {'zeta': '(2 + a / c * cos(beta)) / 4 / sin(beta) ** 2', 'eta': '1 / 2 - 2 * zeta * c * cos(beta) / a', 'psi': '3 / 4 - b ** 2 / 4 / a ** 2 / sin(beta) ** 2', 'phi': 'psi - (3 / 4 - psi) * a * cos(beta) / c'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Y2': '-1 / 2, 1 / 2, 0.0',
            'Y4': '1 / 2, -1 / 2, 0.0',
            'A': '0.0, 0.0, 1 / 2',
            'M2': '-1 / 2, 1 / 2, 1 / 2',
            'V': '1 / 2, 0.0, 0.0',
            'V2': '0.0, 1 / 2, 0.0',
            'L2': '0.0, 1 / 2, 1 / 2',
            'C': '1 - psi, 1 - psi, 0.0',
            'C2': '-1 + psi, psi, 0.0',
            'C4': 'psi, -1 + psi, 0.0',
            'D': '-1 + phi, phi, 1 / 2',
            'D2': '1 - phi, 1 - phi, 1 / 2',
            'E': '-1 + zeta, 1 - zeta, 1 - eta',
            'E2': '-zeta, zeta, eta',
            'E4': 'zeta, -zeta, 1 - eta',
        },
    ),
    89: (
        {'mu': '(1 + (a / b) ** 2) / 4', 'delta': '-a * c * cos(beta) / 2 / b ** 2', 'zeta': '((a / b) ** 2 + (1 + a / c * cos(beta)) / sin(beta) ** 2) / 4', 'eta': '1 / 2 - 2 * zeta * c * cos(beta) / a', 'phi': '1 + zeta - 2 * mu', 'psi': 'eta - 2 * delta'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Y': '1 / 2, 1 / 2, 0.0',
            'A': '0.0, 0.0, 1 / 2',
            'M': '1 / 2, 1 / 2, 1 / 2',
            'V2': '0.0, 1 / 2, 0.0',
            'L2': '0.0, 1 / 2, 1 / 2',
            'F': '-1 + phi, 1 - phi, 1 - psi',
            'F2': '1 - phi, phi, psi',
            'F4': 'phi, 1 - phi, 1 - psi',
            'H': '-zeta, zeta, eta',
            'H2': 'zeta, 1 - zeta, 1 - eta',
            'H4': 'zeta, -zeta, 1 - eta',
            'G': '-mu, mu, delta',
            'G2': 'mu, 1 - mu, -delta',
            'G4': 'mu, -mu, -delta',
            'G6': '1 - mu, mu, delta',
        },
    ),
    90: (
        {'zeta': '((a / b) ** 2 + (1 + a / c * cos(beta)) / sin(beta) ** 2) / 4', 'rho': '1 - zeta * (b / a) ** 2', 'eta': '1 / 2 - 2 * zeta * c * cos(beta) / a', 'mu': 'eta / 2 + (a / b) ** 2 / 4 + a * c * cos(beta) / 2 / b ** 2', 'nu': '2 * mu - zeta', 'omega': 'c * (1 - 4 * nu + (a / b) ** 2 * sin(beta) ** 2) / 2 / a / cos(beta)', 'delta': '-1 / 4 + omega / 2 - zeta * (c / a) * cos(beta)'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Y': '1 / 2, 1 / 2, 0.0',
            'A': '0.0, 0.0, 1 / 2',
            'M2': '-1 / 2, 1 / 2, 1 / 2',
            'V': '1 / 2, 0.0, 0.0',
            'V2': '0.0, 1 / 2, 0.0',
            'L2': '0.0, 1 / 2, 1 / 2',
            'I': '-1 + rho, rho, 1 / 2',
            'I2': '1 - rho, 1 - rho, 1 / 2',
            'K': '-nu, nu, omega',
            'K2': '-1 + nu, 1 - nu, 1 - omega',
            'K4': '1 - nu, nu, omega',
            'H': '-zeta, zeta, eta',
            'H2': 'zeta, 1 - zeta, 1 - eta',
            'H4': 'zeta, -zeta, 1 - eta',
            'N': '-mu, mu, delta',
            'N2': 'mu, 1 - mu, -delta',
            'N4': 'mu, -mu, -delta',
            'N6': '1 - mu, mu, delta',
        },
    ),
    91: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Z': '0.0, 0.0, 1 / 2',
            'Y': '0, 1 / 2, 0.0',
            'X': '1 / 2, 0.0, 0.0',
            'V': '1 / 2, 1 / 2, 0.0',
            'U': '1 / 2, 0.0, 1 / 2',
            'T': '0.0, 1 / 2, 1 / 2',
            'R': '1 / 2, 1 / 2, 1 / 2',
        },
    ),
    92: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'Z': '0.0, 0.0, 1 / 2',
            'Y': '0.0, 1 / 2, 0.0',
            'Y2': '0.0, -1 / 2, 0.0',
            'X': '1 / 2, 0.0, 0.0',
            'V2': '1 / 2, -1 / 2, 0.0',
            'U2': '-1 / 2, 0.0, 1 / 2',
            'T2': '0, -1 / 2, 1 / 2',
            'R2': '-1 / 2, -1 / 2, 1 / 2',
        },
    ),
}

SC_TABLES = {
    2: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'M': '1 / 2, 1 / 2, 0',
            'R': '1 / 2, 1 / 2, 1 / 2',
            'X': '0, 1 / 2, 0',
        },
    ),
    3: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'K': '3 / 8, 3 / 8, 3 / 4',
            'L': '1 / 2, 1 / 2, 1 / 2',
            'U': '5 / 8, 1 / 4, 5 / 8',
            'W': '1 / 2, 1 / 4, 3 / 4',
            'X': '1 / 2, 0, 1 / 2',
        },
    ),
    4: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'H': '1 / 2, -1 / 2, 1 / 2',
            'P': '1 / 4, 1 / 4, 1 / 4',
            'N': '0, 0, 1 / 2',
        },
    ),
    5: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'A': '1 / 2, 1 / 2, 1 / 2',
            'M': '1 / 2, 1 / 2, 0',
            'R': '0, 1 / 2, 1 / 2',
            'X': '0, 1 / 2, 0',
            'Z': '0, 0, 1 / 2',
        },
    ),
    6: (
        {'eta': '(1 + c ** 2 / a ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'M': '-1 / 2, 1 / 2, 1 / 2',
            'N': '0, 1 / 2, 0',
            'P': '1 / 4, 1 / 4, 1 / 4',
            'X': '0, 0, 1 / 2',
            'Z': 'eta, eta, -eta',
            'Z1': '-eta, 1 - eta, eta',
        },
    ),
    7: (
        {'eta': '(1 + a ** 2 / c ** 2) / 4', 'zeta': 'a ** 2 / (2 * c ** 2)'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'N': '0, 1 / 2, 0',
            'P': '1 / 4, 1 / 4, 1 / 4',
            'SIGMA': '-eta, eta, eta',
            'SIGMA1': 'eta, 1 - eta, -eta',
            'X': '0, 0, 1 / 2',
            'Y': '-zeta, zeta, 1 / 2',
            'Y1': '1 / 2, 1 / 2, -zeta',
            'Z': '1 / 2, 1 / 2, -1 / 2',
        },
    ),
    8: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'R': '1 / 2, 1 / 2, 1 / 2',
            'S': '1 / 2, 1 / 2, 0',
            'T': '0, 1 / 2, 1 / 2',
            'U': '1 / 2, 0, 1 / 2',
            'X': '1 / 2, 0, 0',
            'Y': '0, 1 / 2, 0',
            'Z': '0, 0, 1 / 2',
        },
    ),
    9: (
        {'eta': '(1 + a ** 2 / b ** 2 + a ** 2 / c ** 2) / 4', 'zeta': '(1 + a ** 2 / b ** 2 - a ** 2 / c ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'A': '1 / 2, 1 / 2 + zeta, zeta',
            'A1': '1 / 2, 1 / 2 - zeta, 1 - zeta',
            'L': '1 / 2, 1 / 2, 1 / 2',
            'T': '1, 1 / 2, 1 / 2',
            'X': '0, eta, eta',
            'X1': '1, 1 - eta, 1 - eta',
            'Y': '1 / 2, 0, 1 / 2',
            'Z': '1 / 2, 1 / 2, 0',
        },
    ),
    10: (
        {'eta': '(1 + a ** 2 / b ** 2 - a ** 2 / c ** 2) / 4', 'delta': '(1 + b ** 2 / a ** 2 - b ** 2 / c ** 2) / 4', 'phi': '(1 + c ** 2 / b ** 2 - c ** 2 / a ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'C': '1 / 2, 1 / 2 - eta, 1 - eta',
            'C1': '1 / 2, 1 / 2 + eta, eta',
            'D': '1 / 2 - delta, 1 / 2, 1 - delta',
            'D1': '1 / 2 + delta, 1 / 2, delta',
            'L': '1 / 2, 1 / 2, 1 / 2',
            'H': '1 - phi, 1 / 2 - phi, 1 / 2',
            'H1': 'phi, 1 / 2 + phi, 1 / 2',
            'X': '0, 1 / 2, 1 / 2',
            'Y': '1 / 2, 0, 1 / 2',
            'Z': '1 / 2, 1 / 2, 0',
        },
    ),
    11: (
        {'zeta': '(1 + a ** 2 / c ** 2) / 4', 'eta': '(1 + b ** 2 / c ** 2) / 4', 'delta': '(b ** 2 - a ** 2) / (4 * c ** 2)', 'mu': '(a ** 2 + b ** 2) / (4 * c ** 2)'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'L': '-mu, mu, 1 / 2 - delta',
            'L1': 'mu, -mu, 1 / 2 + delta',
            'L2': '1 / 2 - delta, 1 / 2 + delta, -mu',
            'R': '0, 1 / 2, 0',
            'S': '1 / 2, 0, 0',
            'T': '0, 0, 1 / 2',
            'W': '1 / 4, 1 / 4, 1 / 4',
            'X': '-zeta, zeta, zeta',
            'X1': 'zeta, 1 - zeta, -zeta',
            'Y': 'eta, -eta, eta',
            'Y1': '1 - eta, eta, -eta',
            'Z': '1 / 2, 1 / 2, -1 / 2',
        },
    ),
    12: (
        {'zeta': '(1 + a ** 2 / b ** 2) / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'A': 'zeta, zeta, 1 / 2',
            'A1': '-zeta, 1 - zeta, 1 / 2',
            'R': '0, 1 / 2, 1 / 2',
            'S': '0, 1 / 2, 0',
            'T': '-1 / 2, 1 / 2, 1 / 2',
            'X': 'zeta, zeta, 0',
            'X1': '-zeta, 1 - zeta, 0',
            'Y': '-1 / 2, 1 / 2, 0',
            'Z': '0, 0, 1 / 2',
        },
    ),
    13: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'A': '0, 0, 1 / 2',
            'H': '1 / 3, 1 / 3, 1 / 2',
            'K': '1 / 3, 1 / 3, 0',
            'L': '1 / 2, 0, 1 / 2',
            'M': '1 / 2, 0, 0',
        },
    ),
    14: (
        {'eta': '(1 + 4 * cos(alpha)) / (2 + 4 * cos(alpha))', 'nu': '3 / 4 - eta / 2'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'B': 'eta, 1 / 2, 1 - eta',
            'B1': '1 / 2, 1 - eta, eta - 1',
            'F': '1 / 2, 1 / 2, 0',
            'L': '1 / 2, 0, 0',
            'L1': '0, 0, -1 / 2',
            'P': 'eta, nu, nu',
            'P1': '1 - nu, 1 - nu, 1 - eta',
            'P2': 'nu, nu, eta - 1',
            'Q': '1 - nu, nu, 0',
            'X': 'nu, 0, -nu',
            'Z': '1 / 2, 1 / 2, 1 / 2',
        },
    ),
    15: (
        {'eta': '1 / (2 * tan(alpha / 2) ** 2)', 'nu': '3 / 4 - eta / 2'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'F': '1 / 2, -1 / 2, 0',
            'L': '1 / 2, 0, 0',
            'P': '1 - nu, -nu, 1 - nu',
            'P1': 'nu, nu - 1, nu - 1',
            'Q': 'eta, eta, eta',
            'Q1': '1 - eta, -eta, -eta',
            'Z': '1 / 2, -1 / 2, 1 / 2',
        },
    ),
    16: (
        {'eta': '(1 - b * cos(alpha) / c) / (2 * sin(alpha) ** 2)', 'nu': '1 / 2 - eta * c * cos(alpha) / b'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'A': '1 / 2, 1 / 2, 0',
            'C': '0, 1 / 2, 1 / 2',
            'D': '1 / 2, 0, 1 / 2',
            'D1': '1 / 2, 0, -1 / 2',
            'E': '1 / 2, 1 / 2, 1 / 2',
            'H': '0, eta, 1 - nu',
            'H1': '0, 1 - eta, nu',
            'H2': '0, eta, -nu',
            'M': '1 / 2, eta, 1 - nu',
            'M1': '1 / 2, 1 - eta, nu',
            'M2': '1 / 2, eta, -nu',
            'X': '0, 1 / 2, 0',
            'Y': '0, 0, 1 / 2',
            'Y1': '0, 0, -1 / 2',
            'Z': '1 / 2, 0, 0',
        },
    ),
    17: (
        {'zeta': '(2 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2)', 'eta': '1 / 2 + 2 * zeta * c * cos(alpha) / b', 'psi': '3 / 4 - a ** 2 / (4 * b ** 2 * sin(alpha) ** 2)', 'phi': 'psi + (3 / 4 - psi) * b * cos(alpha) / c'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'N': '1 / 2, 0, 0',
            'N1': '0, -1 / 2, 0',
            'F': '1 - zeta, 1 - zeta, 1 - eta',
            'F1': 'zeta, zeta, eta',
            'F2': '-zeta, -zeta, 1 - eta',
            'F3': '1 - zeta, -zeta, 1 - eta',
            'I': 'phi, 1 - phi, 1 / 2',
            'I1': '1 - phi, phi - 1, 1 / 2',
            'L': '1 / 2, 1 / 2, 1 / 2',
            'M': '1 / 2, 0, 1 / 2',
            'X': '1 - psi, psi - 1, 0',
            'X1': 'psi, 1 - psi, 0',
            'X2': 'psi - 1, -psi, 0',
            'Y': '1 / 2, 1 / 2, 0',
            'Y1': '-1 / 2, -1 / 2, 0',
            'Z': '0, 0, 1 / 2',
        },
    ),
    18: (
        {'mu': '(1 + b ** 2 / a ** 2) / 4', 'delta': 'b * c * cos(alpha) / (2 * a ** 2)', 'zeta': 'mu - 1 / 4 + (1 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2)', 'eta': '1 / 2 + 2 * zeta * c * cos(alpha) / b', 'phi': '1 + zeta - 2 * mu', 'psi': 'eta - 2 * delta'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'F': '1 - phi, 1 - phi, 1 - psi',
            'F1': 'phi, phi - 1, psi',
            'F2': '1 - phi, -phi, 1 - psi',
            'H': 'zeta, zeta, eta',
            'H1': '1 - zeta, -zeta, 1 - eta',
            'H2': '-zeta, -zeta, 1 - eta',
            'I': '1 / 2, -1 / 2, 1 / 2',
            'M': '1 / 2, 0, 1 / 2',
            'N': '1 / 2, 0, 0',
            'N1': '0, -1 / 2, 0',
            'X': '1 / 2, -1 / 2, 0',
            'Y': 'mu, mu, delta',
            'Y1': '1 - mu, -mu, -delta',
            'Y2': '-mu, -mu, -delta',
            'Y3': 'mu, mu - 1, delta',
            'Z': '0, 0, 1 / 2',
        },
    ),
    19: (
        {'zeta': '(b ** 2 / a ** 2 + (1 - b * cos(alpha) / c) / sin(alpha) ** 2) / 4', 'eta': '1 / 2 + 2 * zeta * c * cos(alpha) / b', 'mu': 'eta / 2 + b ** 2 / (4 * a ** 2) - b * c * cos(alpha) / (2 * a ** 2)', 'nu': '2 * mu - zeta', 'rho': '1 - zeta * a ** 2 / b ** 2', 'omega': '(4 * nu - 1 - b ** 2 * sin(alpha) ** 2 / a ** 2) * c / (2 * b * cos(alpha))', 'delta': 'zeta * c * cos(alpha) / b + omega / 2 - 1 / 4'},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'F': 'nu, nu, omega',
            'F1': '1 - nu, 1 - nu, 1 - omega',
            'F2': 'nu, nu - 1, omega',
            'H': 'zeta, zeta, eta',
            'H1': '1 - zeta, -zeta, 1 - eta',
            'H2': '-zeta, -zeta, 1 - eta',
            'I': 'rho, 1 - rho, 1 / 2',
            'I1': '1 - rho, rho - 1, 1 / 2',
            'L': '1 / 2, 1 / 2, 1 / 2',
            'M': '1 / 2, 0, 1 / 2',
            'N': '1 / 2, 0, 0',
            'N1': '0, -1 / 2, 0',
            'X': '1 / 2, -1 / 2, 0',
            'Y': 'mu, mu, delta',
            'Y1': '1 - mu, -mu, -delta',
            'Y2': '-mu, -mu, -delta',
            'Y3': 'mu, mu - 1, delta',
            'Z': '0, 0, 1 / 2',
        },
    ),
    20: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'L': '1 / 2, 1 / 2, 0',
            'M': '0, 1 / 2, 1 / 2',
            'N': '1 / 2, 0, 1 / 2',
            'R': '1 / 2, 1 / 2, 1 / 2',
            'X': '1 / 2, 0, 0',
            'Y': '0, 1 / 2, 0',
            'Z': '0, 0, 1 / 2',
        },
    ),
    21: (
        {},
        {
            'GAMMA': '0.0, 0.0, 0.0',
            'L': '1 / 2, -1 / 2, 0',
            'M': '0, 0, 1 / 2',
            'N': '-1 / 2, -1 / 2, 1 / 2',
            'R': '0, -1 / 2, 1 / 2',
            'X': '0, -1 / 2, 0',
            'Y': '1 / 2, 0, 0',
            'Z': '-1 / 2, 0, 1 / 2',
        },
    ),
}


SYMBOLS = {
    "HPKOT": dict(
        cP1=69, cP2=69, cF1=70, cF2=70, cI1=71, tP1=72, tI1=73, tI2=74, oP1=75, oF1=76, oF2=77, oF3=78,
        oI1=79, oI2=80, oI3=81, oC1=82, oC2=83, oA1=82, oA2=83, hP1=84, hP2=84, hR1=85, hR2=86,
        mP1=87, mC1=88, mC2=89, mC3=90, aP2=91, aP3=92,
    ),
    "SC": dict(
        CUB=2, FCC=3, BCC=4, TET=5, BCT1=6, BCT2=7, ORC=8, ORCF1=9, ORCF2=10, ORCF3=9, ORCI=11, ORCC=12, HEX=13,
        RHL1=14, RHL2=15, MCL=16, MCLC1=17, MCLC2=17, MCLC3=18, MCLC4=18, MCLC5=19, TRI1a=20, TRI2a=20, TRI1b=21, TRI2b=21,
    ),
}


def parameters(convention, symbol):
    """names of the parameters and, for each, its defining expression"""
    num = SYMBOLS[convention][symbol]
    params, pts = (HPKOT_TABLES if convention == "HPKOT" else SC_TABLES)[num]
    out = {}
    for k, e in params.items():
        if "@" in k:
            k, lt = k.split("@")
            if not symbol.startswith(lt):
                continue
        out[k] = e
    return out, pts


def points(convention, symbol, a, b, c, alpha=None, beta=None, fn=math):
    """alpha, beta in radians; fn provides cos, sin, tan"""
    params, pts = parameters(convention, symbol)
    env = dict(a=a, b=b, c=c, alpha=alpha, beta=beta, cos=fn.cos, sin=fn.sin, tan=fn.tan)
    for k, e in params.items():
        env[k] = eval(e, {"__builtins__": {}}, env)
    return {n: eval("[" + e + "]", {"__builtins__": {}}, env) for n, e in pts.items()}
