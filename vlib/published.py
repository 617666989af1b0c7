r"""Published definitions of the two conventions, transcribed for use as an oracle.

HPKOT: Hinuma, Pizzi, Kumagai, Oba, Tanaka, Comput. Mater. Sci. 128, 140 (2017).
SC: Setyawan, Curtarolo, Comput. Mater. Sci. 49, 299 (2010).

Coordinates are relative to the reciprocal of the primitive cell of the convention.  The
tables were checked independently against the geometry of the Brillouin zone (see C09 in
DESIGN.md).  Nothing here imports wulfric.
"""

import math
from math import cos, sin, tan

import numpy as np


def _hpkot_69():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "R": [1 / 2, 1 / 2, 1 / 2],
        "M": [1 / 2, 1 / 2, 0.0],
        "X": [0.0, 1 / 2, 0.0],
        "X1": [1 / 2, 0.0, 0.0],
    }


def _hpkot_70():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "X": [1 / 2, 0.0, 1 / 2],
        "L": [1 / 2, 1 / 2, 1 / 2],
        "W": [1 / 2, 1 / 4, 3 / 4],
        "W2": [3 / 4, 1 / 4, 1 / 2],
        "K": [3 / 8, 3 / 8, 3 / 4],
        "U": [5 / 8, 1 / 4, 5 / 8],
    }


def _hpkot_71():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "H": [1 / 2, -1 / 2, 1 / 2],
        "P": [1 / 4, 1 / 4, 1 / 4],
        "N": [0.0, 0.0, 1 / 2],
    }


def _hpkot_72():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Z": [0.0, 0.0, 1 / 2],
        "M": [1 / 2, 1 / 2, 0.0],
        "A": [1 / 2, 1 / 2, 1 / 2],
        "R": [0.0, 1 / 2, 1 / 2],
        "X": [0.0, 1 / 2, 0.0],
    }


def _hpkot_73(a, c):
    eta = (1 + (c / a) ** 2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "M": [-1 / 2, 1 / 2, 1 / 2],
        "X": [0.0, 0.0, 1 / 2],
        "P": [1 / 4, 1 / 4, 1 / 4],
        "Z": [eta, eta, -eta],
        "Z0": [-eta, 1 - eta, eta],
        "N": [0.0, 1 / 2, 0.0],
    }


def _hpkot_74(a, c):
    eta = (1 + (a / c) ** 2) / 4
    zeta = ((a / c) ** 2) / 2
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "M": [1 / 2, 1 / 2, -1 / 2],
        "X": [0.0, 0.0, 1 / 2],
        "P": [1 / 4, 1 / 4, 1 / 4],
        "N": [0.0, 1 / 2, 0.0],
        "S0": [-eta, eta, eta],
        "S": [eta, 1 - eta, -eta],
        "R": [-zeta, zeta, 1 / 2],
        "G": [1 / 2, 1 / 2, -zeta],
    }


def _hpkot_75():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "X": [1 / 2, 0.0, 0.0],
        "Z": [0.0, 0.0, 1 / 2],
        "U": [1 / 2, 0.0, 1 / 2],
        "Y": [0.0, 1 / 2, 0.0],
        "S": [1 / 2, 1 / 2, 0.0],
        "T": [0.0, 1 / 2, 1 / 2],
        "R": [1 / 2, 1 / 2, 1 / 2],
    }


def _hpkot_76(a, b, c):
    zeta = (1 + (a / b) ** 2 - (a / c) ** 2) / 4
    eta = (1 + (a / b) ** 2 + (a / c) ** 2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "T": [1.0, 1 / 2, 1 / 2],
        "Z": [1 / 2, 1 / 2, 0.0],
        "Y": [1 / 2, 0.0, 1 / 2],
        "SIGMA0": [0.0, eta, eta],
        "U0": [1.0, 1 - eta, 1 - eta],
        "A0": [1 / 2, 1 / 2 + zeta, zeta],
        "C0": [1 / 2, 1 / 2 - zeta, 1 - zeta],
        "L": [1 / 2, 1 / 2, 1 / 2],
    }


def _hpkot_77(a, b, c):
    zeta = (1 + (c / a) ** 2 - (c / b) ** 2) / 4
    eta = (1 + (c / a) ** 2 + (c / b) ** 2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "T": [0.0, 1 / 2, 1 / 2],
        "Z": [1 / 2, 1 / 2, 1.0],
        "Y": [1 / 2, 0.0, 1 / 2],
        "LAMBDA0": [eta, eta, 0.0],
        "Q0": [1 - eta, 1 - eta, 1.0],
        "G0": [1 / 2 - zeta, 1 - zeta, 1 / 2],
        "H0": [1 / 2 + zeta, zeta, 1 / 2],
        "L": [1 / 2, 1 / 2, 1 / 2],
    }


def _hpkot_78(a, b, c):
    eta = (1 + (a / b) ** 2 - (a / c) ** 2) / 4
    delta = (1 + (b / a) ** 2 - (b / c) ** 2) / 4
    phi = (1 + (c / b) ** 2 - (c / a) ** 2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "T": [0.0, 1 / 2, 1 / 2],
        "Z": [1 / 2, 1 / 2, 0.0],
        "Y": [1 / 2, 0.0, 1 / 2],
        "A0": [1 / 2, 1 / 2 + eta, eta],
        "C0": [1 / 2, 1 / 2 - eta, 1 - eta],
        "B0": [1 / 2 + delta, 1 / 2, delta],
        "D0": [1 / 2 - delta, 1 / 2, 1 - delta],
        "G0": [phi, 1 / 2 + phi, 1 / 2],
        "H0": [1 - phi, 1 / 2 - phi, 1 / 2],
        "L": [1 / 2, 1 / 2, 1 / 2],
    }


def _hpkot_79(a, b, c):
    zeta = (1 + (a / c) ** 2) / 4
    eta = (1 + (b / c) ** 2) / 4
    delta = (b**2 - a**2) / 4 / c**2
    mu = (a**2 + b**2) / 4 / c**2
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "X": [1 / 2, 1 / 2, -1 / 2],
        "S": [1 / 2, 0.0, 0.0],
        "R": [0.0, 1 / 2, 0.0],
        "T": [0.0, 0.0, 1 / 2],
        "W": [1 / 4, 1 / 4, 1 / 4],
        "SIGMA0": [-zeta, zeta, zeta],
        "F2": [zeta, 1 - zeta, -zeta],
        "Y0": [eta, -eta, eta],
        "U0": [1 - eta, eta, -eta],
        "L0": [-mu, mu, 1 / 2 - delta],
        "M0": [mu, -mu, 1 / 2 + delta],
        "J0": [1 / 2 - delta, 1 / 2 + delta, -mu],
    }


def _hpkot_80(a, b, c):
    zeta = (1 + (b / a) ** 2) / 4
    eta = (1 + (c / a) ** 2) / 4
    delta = (c**2 - b**2) / 4 / a**2
    mu = (b**2 + c**2) / 4 / a**2
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "X": [-1 / 2, 1 / 2, 1 / 2],
        "S": [1 / 2, 0.0, 0.0],
        "R": [0.0, 1 / 2, 0.0],
        "T": [0.0, 0.0, 1 / 2],
        "W": [1 / 4, 1 / 4, 1 / 4],
        "Y0": [zeta, -zeta, zeta],
        "U2": [-zeta, zeta, 1 - zeta],
        "LAMBDA0": [eta, eta, -eta],
        "G2": [-eta, 1 - eta, eta],
        "K": [1 / 2 - delta, -mu, mu],
        "K2": [1 / 2 + delta, mu, -mu],
        "K4": [-mu, 1 / 2 - delta, 1 / 2 + delta],
    }


def _hpkot_81(a, b, c):
    zeta = (1 + (c / b) ** 2) / 4
    eta = (1 + (a / b) ** 2) / 4
    delta = (a**2 - c**2) / 4 / b**2
    mu = (c**2 + a**2) / 4 / b**2
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "X": [1 / 2, -1 / 2, 1 / 2],
        "S": [1 / 2, 0.0, 0.0],
        "R": [0.0, 1 / 2, 0.0],
        "T": [0.0, 0.0, 1 / 2],
        "W": [1 / 4, 1 / 4, 1 / 4],
        "SIGMA0": [-eta, eta, eta],
        "F0": [eta, -eta, 1 - eta],
        "LAMBDA0": [zeta, zeta, -zeta],
        "G0": [1 - zeta, -zeta, zeta],
        "V0": [mu, 1 / 2 - delta, -mu],
        "H0": [-mu, 1 / 2 + delta, mu],
        "H2": [1 / 2 + delta, -mu, 1 / 2 - delta],
    }


def _hpkot_82(a, b, c, lattice_type):
    if lattice_type == "oA":
        zeta = (1 + (b / c) ** 2) / 4
    elif lattice_type == "oC":
        zeta = (1 + (a / b) ** 2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Y": [-1 / 2, 1 / 2, 0.0],
        "T": [-1 / 2, 1 / 2, 1 / 2],
        "Z": [0.0, 0.0, 1 / 2],
        "S": [0.0, 1 / 2, 0.0],
        "R": [0.0, 1 / 2, 1 / 2],
        "SIGMA0": [zeta, zeta, 0.0],
        "C0": [-zeta, 1 - zeta, 0.0],
        "A0": [zeta, zeta, 1 / 2],
        "E0": [-zeta, 1 - zeta, 1 / 2],
    }


def _hpkot_83(a, b, c, lattice_type):
    if lattice_type == "oA":
        zeta = (1 + (c / b) ** 2) / 4
    elif lattice_type == "oC":
        zeta = (1 + (b / a) ** 2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Y": [1 / 2, 1 / 2, 0.0],
        "T": [1 / 2, 1 / 2, 1 / 2],
        "T2": [1 / 2, 1 / 2, -1 / 2],
        "Z": [0.0, 0.0, 1 / 2],
        "Z2": [0.0, 0.0, -1 / 2],
        "S": [0.0, 1 / 2, 0.0],
        "R": [0.0, 1 / 2, 1 / 2],
        "R2": [0.0, 1 / 2, -1 / 2],
        "DELTA0": [-zeta, zeta, 0.0],
        "F0": [zeta, 1 - zeta, 0.0],
        "B0": [-zeta, zeta, 1 / 2],
        "B2": [-zeta, zeta, -1 / 2],
        "G0": [zeta, 1 - zeta, 1 / 2],
        "G2": [zeta, 1 - zeta, -1 / 2],
    }


def _hpkot_84():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "A": [0.0, 0.0, 1 / 2],
        "K": [1 / 3, 1 / 3, 0.0],
        "H": [1 / 3, 1 / 3, 1 / 2],
        "H2": [1 / 3, 1 / 3, -1 / 2],
        "M": [1 / 2, 0.0, 0.0],
        "L": [1 / 2, 0.0, 1 / 2],
    }


def _hpkot_85(a, c):
    delta = ((a / c) ** 2) / 4
    eta = 5 / 6 - 2 * delta
    nu = 1 / 3 + delta

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "T": [1 / 2, 1 / 2, 1 / 2],
        "L": [1 / 2, 0.0, 0.0],
        "L2": [0.0, -1 / 2, 0.0],
        "L4": [0.0, 0.0, -1 / 2],
        "F": [1 / 2, 0.0, 1 / 2],
        "F2": [1 / 2, 1 / 2, 0.0],
        "S0": [nu, -nu, 0.0],
        "S2": [1 - nu, 0.0, nu],
        "S4": [nu, 0.0, -nu],
        "S6": [1 - nu, nu, 0.0],
        "H0": [1 / 2, -1 + eta, 1 - eta],
        "H2": [eta, 1 - eta, 1 / 2],
        "H4": [eta, 1 / 2, 1 - eta],
        "H6": [1 / 2, 1 - eta, -1 + eta],
        "M0": [nu, -1 + eta, nu],
        "M2": [1 - nu, 1 - eta, 1 - nu],
        "M4": [eta, nu, nu],
        "M6": [1 - nu, 1 - nu, 1 - eta],
        "M8": [nu, nu, -1 + eta],
    }


def _hpkot_86(a, c):
    zeta = 1 / 6 - ((c / a) ** 2) / 9
    eta = 1 / 2 - 2 * zeta
    nu = 1 / 2 + zeta
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "T": [1 / 2, -1 / 2, 1 / 2],
        "P0": [eta, -1 + eta, eta],
        "P2": [eta, eta, eta],
        "R0": [1 - eta, -eta, -eta],
        "M": [1 - nu, -nu, 1 - nu],
        "M2": [nu, -1 + nu, -1 + nu],
        "L": [1 / 2, 0.0, 0.0],
        "F": [1 / 2, -1 / 2, 0.0],
    }


def _hpkot_87(a, c, beta):
    beta = math.radians(beta)
    eta = (1 + (a / c) * cos(beta)) / 2 / sin(beta) ** 2
    nu = 1 / 2 + eta * c * cos(beta) / a
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Z": [0.0, 1 / 2, 0.0],
        "B": [0.0, 0.0, 1 / 2],
        "B2": [0.0, 0.0, -1 / 2],
        "Y": [1 / 2, 0.0, 0.0],
        "Y2": [-1 / 2, 0.0, 0.0],
        "C": [1 / 2, 1 / 2, 0.0],
        "C2": [-1 / 2, 1 / 2, 0.0],
        "D": [0.0, 1 / 2, 1 / 2],
        "D2": [0.0, 1 / 2, -1 / 2],
        "A": [-1 / 2, 0.0, 1 / 2],
        "E": [-1 / 2, 1 / 2, 1 / 2],
        "H": [-eta, 0.0, 1 - nu],
        "H2": [-1 + eta, 0.0, nu],
        "H4": [-eta, 0.0, -nu],
        "M": [-eta, 1 / 2, 1 - nu],
        "M2": [-1 + eta, 1 / 2, nu],
        "M4": [-eta, 1 / 2, -nu],
    }


def _hpkot_88(a, b, c, beta):
    beta = math.radians(beta)
    zeta = (2 + (a / c) * cos(beta)) / 4 / sin(beta) ** 2
    eta = 1 / 2 - 2 * zeta * c * cos(beta) / a
    psi = 3 / 4 - b**2 / 4 / a**2 / sin(beta) ** 2
    phi = psi - (3 / 4 - psi) * a * cos(beta) / c
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Y2": [-1 / 2, 1 / 2, 0.0],
        "Y4": [1 / 2, -1 / 2, 0.0],
        "A": [0.0, 0.0, 1 / 2],
        "M2": [-1 / 2, 1 / 2, 1 / 2],
        "V": [1 / 2, 0.0, 0.0],
        "V2": [0.0, 1 / 2, 0.0],
        "L2": [0.0, 1 / 2, 1 / 2],
        "C": [1 - psi, 1 - psi, 0.0],
        "C2": [-1 + psi, psi, 0.0],
        "C4": [psi, -1 + psi, 0.0],
        "D": [-1 + phi, phi, 1 / 2],
        "D2": [1 - phi, 1 - phi, 1 / 2],
        "E": [-1 + zeta, 1 - zeta, 1 - eta],
        "E2": [-zeta, zeta, eta],
        "E4": [zeta, -zeta, 1 - eta],
    }


def _hpkot_89(a, b, c, beta):
    beta = math.radians(beta)
    mu = (1 + (a / b) ** 2) / 4
    delta = -a * c * cos(beta) / 2 / b**2
    zeta = ((a / b) ** 2 + (1 + (a / c) * cos(beta)) / sin(beta) ** 2) / 4
    eta = 1 / 2 - 2 * zeta * c * cos(beta) / a
    phi = 1 + zeta - 2 * mu
    psi = eta - 2 * delta
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Y": [1 / 2, 1 / 2, 0.0],
        "A": [0.0, 0.0, 1 / 2],
        "M": [1 / 2, 1 / 2, 1 / 2],
        "V2": [0.0, 1 / 2, 0.0],
        "L2": [0.0, 1 / 2, 1 / 2],
        "F": [-1 + phi, 1 - phi, 1 - psi],
        "F2": [1 - phi, phi, psi],
        "F4": [phi, 1 - phi, 1 - psi],
        "H": [-zeta, zeta, eta],
        "H2": [zeta, 1 - zeta, 1 - eta],
        "H4": [zeta, -zeta, 1 - eta],
        "G": [-mu, mu, delta],
        "G2": [mu, 1 - mu, -delta],
        "G4": [mu, -mu, -delta],
        "G6": [1 - mu, mu, delta],
    }


def _hpkot_90(a, b, c, beta):
    beta = math.radians(beta)
    zeta = ((a / b) ** 2 + (1 + (a / c) * cos(beta)) / sin(beta) ** 2) / 4
    rho = 1 - zeta * (b / a) ** 2
    eta = 1 / 2 - 2 * zeta * c * cos(beta) / a
    mu = eta / 2 + ((a / b) ** 2) / 4 + a * c * cos(beta) / 2 / b**2
    nu = 2 * mu - zeta
    omega = c * (1 - 4 * nu + (a / b) ** 2 * sin(beta) ** 2) / 2 / a / cos(beta)
    delta = -1 / 4 + omega / 2 - zeta * (c / a) * cos(beta)
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Y": [1 / 2, 1 / 2, 0.0],
        "A": [0.0, 0.0, 1 / 2],
        "M2": [-1 / 2, 1 / 2, 1 / 2],
        "V": [1 / 2, 0.0, 0.0],
        "V2": [0.0, 1 / 2, 0.0],
        "L2": [0.0, 1 / 2, 1 / 2],
        "I": [-1 + rho, rho, 1 / 2],
        "I2": [1 - rho, 1 - rho, 1 / 2],
        "K": [-nu, nu, omega],
        "K2": [-1 + nu, 1 - nu, 1 - omega],
        "K4": [1 - nu, nu, omega],
        "H": [-zeta, zeta, eta],
        "H2": [zeta, 1 - zeta, 1 - eta],
        "H4": [zeta, -zeta, 1 - eta],
        "N": [-mu, mu, delta],
        "N2": [mu, 1 - mu, -delta],
        "N4": [mu, -mu, -delta],
        "N6": [1 - mu, mu, delta],
    }


def _hpkot_91():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Z": [0.0, 0.0, 1 / 2],
        "Y": [0, 1 / 2, 0.0],
        "X": [1 / 2, 0.0, 0.0],
        "V": [1 / 2, 1 / 2, 0.0],
        "U": [1 / 2, 0.0, 1 / 2],
        "T": [0.0, 1 / 2, 1 / 2],
        "R": [1 / 2, 1 / 2, 1 / 2],
    }


def _hpkot_92():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "Z": [0.0, 0.0, 1 / 2],
        "Y": [0.0, 1 / 2, 0.0],
        "Y2": [0.0, -1 / 2, 0.0],
        "X": [1 / 2, 0.0, 0.0],
        "V2": [1 / 2, -1 / 2, 0.0],
        "U2": [-1 / 2, 0.0, 1 / 2],
        "T2": [0, -1 / 2, 1 / 2],
        "R2": [-1 / 2, -1 / 2, 1 / 2],
    }


def _sc_2():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "M": [1 / 2, 1 / 2, 0],
        "R": [1 / 2, 1 / 2, 1 / 2],
        "X": [0, 1 / 2, 0],
    }


def _sc_3():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "K": [3 / 8, 3 / 8, 3 / 4],
        "L": [1 / 2, 1 / 2, 1 / 2],
        "U": [5 / 8, 1 / 4, 5 / 8],
        "W": [1 / 2, 1 / 4, 3 / 4],
        "X": [1 / 2, 0, 1 / 2],
    }


def _sc_4():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "H": [1 / 2, -1 / 2, 1 / 2],
        "P": [1 / 4, 1 / 4, 1 / 4],
        "N": [0, 0, 1 / 2],
    }


def _sc_5():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "A": [1 / 2, 1 / 2, 1 / 2],
        "M": [1 / 2, 1 / 2, 0],
        "R": [0, 1 / 2, 1 / 2],
        "X": [0, 1 / 2, 0],
        "Z": [0, 0, 1 / 2],
    }


def _sc_6(a, c):
    eta = (1 + c**2 / a**2) / 4
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "M": [-1 / 2, 1 / 2, 1 / 2],
        "N": [0, 1 / 2, 0],
        "P": [1 / 4, 1 / 4, 1 / 4],
        "X": [0, 0, 1 / 2],
        "Z": [eta, eta, -eta],
        "Z1": [-eta, 1 - eta, eta],
    }


def _sc_7(a, c):
    eta = (1 + a**2 / c**2) / 4
    zeta = a**2 / (2 * c**2)
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "N": [0, 1 / 2, 0],
        "P": [1 / 4, 1 / 4, 1 / 4],
        "SIGMA": [-eta, eta, eta],
        "SIGMA1": [eta, 1 - eta, -eta],
        "X": [0, 0, 1 / 2],
        "Y": [-zeta, zeta, 1 / 2],
        "Y1": [1 / 2, 1 / 2, -zeta],
        "Z": [1 / 2, 1 / 2, -1 / 2],
    }


def _sc_8():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "R": [1 / 2, 1 / 2, 1 / 2],
        "S": [1 / 2, 1 / 2, 0],
        "T": [0, 1 / 2, 1 / 2],
        "U": [1 / 2, 0, 1 / 2],
        "X": [1 / 2, 0, 0],
        "Y": [0, 1 / 2, 0],
        "Z": [0, 0, 1 / 2],
    }


def _sc_9(a, b, c):
    eta = (1 + a**2 / b**2 + a**2 / c**2) / 4
    zeta = (1 + a**2 / b**2 - a**2 / c**2) / 4

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "A": [1 / 2, 1 / 2 + zeta, zeta],
        "A1": [1 / 2, 1 / 2 - zeta, 1 - zeta],
        "L": [1 / 2, 1 / 2, 1 / 2],
        "T": [1, 1 / 2, 1 / 2],
        "X": [0, eta, eta],
        "X1": [1, 1 - eta, 1 - eta],
        "Y": [1 / 2, 0, 1 / 2],
        "Z": [1 / 2, 1 / 2, 0],
    }


def _sc_10(a, b, c):
    eta = (1 + a**2 / b**2 - a**2 / c**2) / 4
    delta = (1 + b**2 / a**2 - b**2 / c**2) / 4
    phi = (1 + c**2 / b**2 - c**2 / a**2) / 4

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "C": [1 / 2, 1 / 2 - eta, 1 - eta],
        "C1": [1 / 2, 1 / 2 + eta, eta],
        "D": [1 / 2 - delta, 1 / 2, 1 - delta],
        "D1": [1 / 2 + delta, 1 / 2, delta],
        "L": [1 / 2, 1 / 2, 1 / 2],
        "H": [1 - phi, 1 / 2 - phi, 1 / 2],
        "H1": [phi, 1 / 2 + phi, 1 / 2],
        "X": [0, 1 / 2, 1 / 2],
        "Y": [1 / 2, 0, 1 / 2],
        "Z": [1 / 2, 1 / 2, 0],
    }


def _sc_11(a, b, c):
    zeta = (1 + a**2 / c**2) / 4
    eta = (1 + b**2 / c**2) / 4
    delta = (b**2 - a**2) / (4 * c**2)
    mu = (a**2 + b**2) / (4 * c**2)

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "L": [-mu, mu, 1 / 2 - delta],
        "L1": [mu, -mu, 1 / 2 + delta],
        "L2": [1 / 2 - delta, 1 / 2 + delta, -mu],
        "R": [0, 1 / 2, 0],
        "S": [1 / 2, 0, 0],
        "T": [0, 0, 1 / 2],
        "W": [1 / 4, 1 / 4, 1 / 4],
        "X": [-zeta, zeta, zeta],
        "X1": [zeta, 1 - zeta, -zeta],
        "Y": [eta, -eta, eta],
        "Y1": [1 - eta, eta, -eta],
        "Z": [1 / 2, 1 / 2, -1 / 2],
    }


def _sc_12(a, b):
    zeta = (1 + a**2 / b**2) / 4

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "A": [zeta, zeta, 1 / 2],
        "A1": [-zeta, 1 - zeta, 1 / 2],
        "R": [0, 1 / 2, 1 / 2],
        "S": [0, 1 / 2, 0],
        "T": [-1 / 2, 1 / 2, 1 / 2],
        "X": [zeta, zeta, 0],
        "X1": [-zeta, 1 - zeta, 0],
        "Y": [-1 / 2, 1 / 2, 0],
        "Z": [0, 0, 1 / 2],
    }


def _sc_13():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "A": [0, 0, 1 / 2],
        "H": [1 / 3, 1 / 3, 1 / 2],
        "K": [1 / 3, 1 / 3, 0],
        "L": [1 / 2, 0, 1 / 2],
        "M": [1 / 2, 0, 0],
    }


def _sc_14(alpha):
    alpha = math.radians(alpha)

    eta = (1 + 4 * cos(alpha)) / (2 + 4 * cos(alpha))
    nu = 3 / 4 - eta / 2

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "B": [eta, 1 / 2, 1 - eta],
        "B1": [1 / 2, 1 - eta, eta - 1],
        "F": [1 / 2, 1 / 2, 0],
        "L": [1 / 2, 0, 0],
        "L1": [0, 0, -1 / 2],
        "P": [eta, nu, nu],
        "P1": [1 - nu, 1 - nu, 1 - eta],
        "P2": [nu, nu, eta - 1],
        "Q": [1 - nu, nu, 0],
        "X": [nu, 0, -nu],
        "Z": [1 / 2, 1 / 2, 1 / 2],
    }


def _sc_15(alpha):
    alpha = math.radians(alpha)

    eta = 1 / (2 * tan(alpha / 2) ** 2)
    nu = 3 / 4 - eta / 2

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "F": [1 / 2, -1 / 2, 0],
        "L": [1 / 2, 0, 0],
        "P": [1 - nu, -nu, 1 - nu],
        "P1": [nu, nu - 1, nu - 1],
        "Q": [eta, eta, eta],
        "Q1": [1 - eta, -eta, -eta],
        "Z": [1 / 2, -1 / 2, 1 / 2],
    }


def _sc_16(b, c, alpha):
    alpha = math.radians(alpha)

    eta = (1 - b * cos(alpha) / c) / (2 * sin(alpha) ** 2)
    nu = 1 / 2 - eta * c * cos(alpha) / b

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "A": [1 / 2, 1 / 2, 0],
        "C": [0, 1 / 2, 1 / 2],
        "D": [1 / 2, 0, 1 / 2],
        "D1": [1 / 2, 0, -1 / 2],
        "E": [1 / 2, 1 / 2, 1 / 2],
        "H": [0, eta, 1 - nu],
        "H1": [0, 1 - eta, nu],
        "H2": [0, eta, -nu],
        "M": [1 / 2, eta, 1 - nu],
        "M1": [1 / 2, 1 - eta, nu],
        "M2": [1 / 2, eta, -nu],
        "X": [0, 1 / 2, 0],
        "Y": [0, 0, 1 / 2],
        "Y1": [0, 0, -1 / 2],
        "Z": [1 / 2, 0, 0],
    }


def _sc_17(a, b, c, alpha):
    alpha = math.radians(alpha)

    zeta = (2 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2)
    eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b
    psi = 3 / 4 - a**2 / (4 * b**2 * sin(alpha) ** 2)
    phi = psi + (3 / 4 - psi) * b * cos(alpha) / c

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "N": [1 / 2, 0, 0],
        "N1": [0, -1 / 2, 0],
        "F": [1 - zeta, 1 - zeta, 1 - eta],
        "F1": [zeta, zeta, eta],
        "F2": [-zeta, -zeta, 1 - eta],
        "F3": [1 - zeta, -zeta, 1 - eta],
        "I": [phi, 1 - phi, 1 / 2],
        "I1": [1 - phi, phi - 1, 1 / 2],
        "L": [1 / 2, 1 / 2, 1 / 2],
        "M": [1 / 2, 0, 1 / 2],
        "X": [1 - psi, psi - 1, 0],
        "X1": [psi, 1 - psi, 0],
        "X2": [psi - 1, -psi, 0],
        "Y": [1 / 2, 1 / 2, 0],
        "Y1": [-1 / 2, -1 / 2, 0],
        "Z": [0, 0, 1 / 2],
    }


def _sc_18(a, b, c, alpha):
    alpha = math.radians(alpha)

    mu = (1 + b**2 / a**2) / 4
    delta = b * c * cos(alpha) / (2 * a**2)
    zeta = mu - 1 / 4 + (1 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2)
    eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b
    phi = 1 + zeta - 2 * mu
    psi = eta - 2 * delta

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "F": [1 - phi, 1 - phi, 1 - psi],
        "F1": [phi, phi - 1, psi],
        "F2": [1 - phi, -phi, 1 - psi],
        "H": [zeta, zeta, eta],
        "H1": [1 - zeta, -zeta, 1 - eta],
        "H2": [-zeta, -zeta, 1 - eta],
        "I": [1 / 2, -1 / 2, 1 / 2],
        "M": [1 / 2, 0, 1 / 2],
        "N": [1 / 2, 0, 0],
        "N1": [0, -1 / 2, 0],
        "X": [1 / 2, -1 / 2, 0],
        "Y": [mu, mu, delta],
        "Y1": [1 - mu, -mu, -delta],
        "Y2": [-mu, -mu, -delta],
        "Y3": [mu, mu - 1, delta],
        "Z": [0, 0, 1 / 2],
    }


def _sc_19(a, b, c, alpha):
    alpha = math.radians(alpha)

    zeta = (b**2 / a**2 + (1 - b * cos(alpha) / c) / sin(alpha) ** 2) / 4
    eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b
    mu = eta / 2 + b**2 / (4 * a**2) - b * c * cos(alpha) / (2 * a**2)
    nu = 2 * mu - zeta
    rho = 1 - zeta * a**2 / b**2
    omega = (4 * nu - 1 - b**2 * sin(alpha) ** 2 / a**2) * c / (2 * b * cos(alpha))
    delta = zeta * c * cos(alpha) / b + omega / 2 - 1 / 4

    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "F": [nu, nu, omega],
        "F1": [1 - nu, 1 - nu, 1 - omega],
        "F2": [nu, nu - 1, omega],
        "H": [zeta, zeta, eta],
        "H1": [1 - zeta, -zeta, 1 - eta],
        "H2": [-zeta, -zeta, 1 - eta],
        "I": [rho, 1 - rho, 1 / 2],
        "I1": [1 - rho, rho - 1, 1 / 2],
        "L": [1 / 2, 1 / 2, 1 / 2],
        "M": [1 / 2, 0, 1 / 2],
        "N": [1 / 2, 0, 0],
        "N1": [0, -1 / 2, 0],
        "X": [1 / 2, -1 / 2, 0],
        "Y": [mu, mu, delta],
        "Y1": [1 - mu, -mu, -delta],
        "Y2": [-mu, -mu, -delta],
        "Y3": [mu, mu - 1, delta],
        "Z": [0, 0, 1 / 2],
    }


def _sc_20():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "L": [1 / 2, 1 / 2, 0],
        "M": [0, 1 / 2, 1 / 2],
        "N": [1 / 2, 0, 1 / 2],
        "R": [1 / 2, 1 / 2, 1 / 2],
        "X": [1 / 2, 0, 0],
        "Y": [0, 1 / 2, 0],
        "Z": [0, 0, 1 / 2],
    }


def _sc_21():
    return {
        "GAMMA": [0.0, 0.0, 0.0],
        "L": [1 / 2, -1 / 2, 0],
        "M": [0, 0, 1 / 2],
        "N": [-1 / 2, -1 / 2, 1 / 2],
        "R": [0, -1 / 2, 1 / 2],
        "X": [0, -1 / 2, 0],
        "Y": [1 / 2, 0, 0],
        "Z": [-1 / 2, 0, 1 / 2],
    }


def hpkot_points(symbol, a, b, c, beta):
    L = symbol[:2]
    return {
        "cP1": lambda: _hpkot_69(),
        "cP2": lambda: _hpkot_69(),
        "cF1": lambda: _hpkot_70(),
        "cF2": lambda: _hpkot_70(),
        "cI1": lambda: _hpkot_71(),
        "tP1": lambda: _hpkot_72(),
        "tI1": lambda: _hpkot_73(a, c),
        "tI2": lambda: _hpkot_74(a, c),
        "oP1": lambda: _hpkot_75(),
        "oF1": lambda: _hpkot_76(a, b, c),
        "oF2": lambda: _hpkot_77(a, b, c),
        "oF3": lambda: _hpkot_78(a, b, c),
        "oI1": lambda: _hpkot_79(a, b, c),
        "oI2": lambda: _hpkot_80(a, b, c),
        "oI3": lambda: _hpkot_81(a, b, c),
        "oC1": lambda: _hpkot_82(a, b, c, L),
        "oA1": lambda: _hpkot_82(a, b, c, L),
        "oC2": lambda: _hpkot_83(a, b, c, L),
        "oA2": lambda: _hpkot_83(a, b, c, L),
        "hP1": lambda: _hpkot_84(),
        "hP2": lambda: _hpkot_84(),
        "hR1": lambda: _hpkot_85(a, c),
        "hR2": lambda: _hpkot_86(a, c),
        "mP1": lambda: _hpkot_87(a, c, beta),
        "mC1": lambda: _hpkot_88(a, b, c, beta),
        "mC2": lambda: _hpkot_89(a, b, c, beta),
        "mC3": lambda: _hpkot_90(a, b, c, beta),
        "aP2": lambda: _hpkot_91(),
        "aP3": lambda: _hpkot_92(),
    }[symbol]()


def sc_points(variation, a, b, c, alpha):
    return {
        "CUB": lambda: _sc_2(),
        "FCC": lambda: _sc_3(),
        "BCC": lambda: _sc_4(),
        "TET": lambda: _sc_5(),
        "BCT1": lambda: _sc_6(a, c),
        "BCT2": lambda: _sc_7(a, c),
        "ORC": lambda: _sc_8(),
        "ORCF1": lambda: _sc_9(a, b, c),
        "ORCF3": lambda: _sc_9(a, b, c),
        "ORCF2": lambda: _sc_10(a, b, c),
        "ORCI": lambda: _sc_11(a, b, c),
        "ORCC": lambda: _sc_12(a, b),
        "HEX": lambda: _sc_13(),
        "RHL1": lambda: _sc_14(alpha),
        "RHL2": lambda: _sc_15(alpha),
        "MCL": lambda: _sc_16(b, c, alpha),
        "MCLC1": lambda: _sc_17(a, b, c, alpha),
        "MCLC2": lambda: _sc_17(a, b, c, alpha),
        "MCLC3": lambda: _sc_18(a, b, c, alpha),
        "MCLC4": lambda: _sc_18(a, b, c, alpha),
        "MCLC5": lambda: _sc_19(a, b, c, alpha),
        "TRI1a": lambda: _sc_20(),
        "TRI2a": lambda: _sc_20(),
        "TRI1b": lambda: _sc_21(),
        "TRI2b": lambda: _sc_21(),
    }[variation]()


# Recommended paths
HPKOT_PATHS = {'cP1': 'GAMMA-X-M-GAMMA-R-X|R-M-X1',
 'cP2': 'GAMMA-X-M-GAMMA-R-X|R-M',
 'cF1': 'GAMMA-X-U|K-GAMMA-L-W-X-W2',
 'cF2': 'GAMMA-X-U|K-GAMMA-L-W-X',
 'cI1': 'GAMMA-H-N-GAMMA-P-H|P-N',
 'tP1': 'GAMMA-X-M-GAMMA-Z-R-A-Z|X-R|M-A',
 'tI1': 'GAMMA-X-M-GAMMA-Z|Z0-M|X-P-N-GAMMA',
 'tI2': 'GAMMA-X-P-N-GAMMA-M-S|S0-GAMMA|X-R|G-M',
 'oP1': 'GAMMA-X-S-Y-GAMMA-Z-U-R-T-Z|X-U|Y-T|S-R',
 'oF1': 'GAMMA-Y-T-Z-GAMMA-SIGMA0|U0-T|Y-C0|A0-Z|GAMMA-L',
 'oF2': 'GAMMA-T-Z-Y-GAMMA-LAMBDA0|Q0-Z|T-G0|H0-Y|GAMMA-L',
 'oF3': 'GAMMA-Y-C0|A0-Z-B0|D0-T-G0|H0-Y|T-GAMMA-Z|GAMMA-L',
 'oI1': 'GAMMA-X-F2|SIGMA0-GAMMA-Y0|U0-X|GAMMA-R-W-S-GAMMA-T-W',
 'oI2': 'GAMMA-X-U2|Y0-GAMMA-LAMBDA0|G2-X|GAMMA-R-W-S-GAMMA-T-W',
 'oI3': 'GAMMA-X-F0|SIGMA0-GAMMA-LAMBDA0|G0-X|GAMMA-R-W-S-GAMMA-T-W',
 'oC1': 'GAMMA-Y-C0|SIGMA0-GAMMA-Z-A0|E0-T-Y|GAMMA-S-R-Z-T',
 'oC2': 'GAMMA-Y-F0|DELTA0-GAMMA-Z-B0|G0-T-Y|GAMMA-S-R-Z-T',
 'oA1': 'GAMMA-Y-C0|SIGMA0-GAMMA-Z-A0|E0-T-Y|GAMMA-S-R-Z-T',
 'oA2': 'GAMMA-Y-F0|DELTA0-GAMMA-Z-B0|G0-T-Y|GAMMA-S-R-Z-T',
 'hP1': 'GAMMA-M-K-GAMMA-A-L-H-A|L-M|H-K-H2',
 'hP2': 'GAMMA-M-K-GAMMA-A-L-H-A|L-M|H-K',
 'hR1': 'GAMMA-T-H2|H0-L-GAMMA-S0|S2-F-GAMMA',
 'hR2': 'GAMMA-L-T-P0|P2-GAMMA-F',
 'mP1': 'GAMMA-Z-D-B-GAMMA-A-E-Z-C2-Y2-GAMMA',
 'mC1': 'GAMMA-C|C2-Y2-GAMMA-M2-D|D2-A-GAMMA|L2-GAMMA-V2',
 'mC2': 'GAMMA-Y-M-A-GAMMA|L2-GAMMA-V2',
 'mC3': 'GAMMA-A-I2|I-M2-GAMMA-Y|L2-GAMMA-V2',
 'aP2': 'GAMMA-X|Y-GAMMA-Z|R-GAMMA-T|U-GAMMA-V',
 'aP3': 'GAMMA-X|Y-GAMMA-Z|R2-GAMMA-T2|U2-GAMMA-V2'}

SC_PATHS = {'CUB': 'GAMMA-X-M-GAMMA-R-X|M-R',
 'FCC': 'GAMMA-X-W-K-GAMMA-L-U-W-L-K|U-X',
 'BCC': 'GAMMA-H-N-GAMMA-P-H|P-N',
 'TET': 'GAMMA-X-M-GAMMA-Z-R-A-Z|X-R|M-A',
 'BCT1': 'GAMMA-X-M-GAMMA-Z-P-N-Z1-M|X-P',
 'BCT2': 'GAMMA-X-Y-SIGMA-GAMMA-Z-SIGMA1-N-P-Y1-Z|X-P',
 'ORC': 'GAMMA-X-S-Y-GAMMA-Z-U-R-T-Z|Y-T|U-X|S-R',
 'ORCF1': 'GAMMA-Y-T-Z-GAMMA-X-A1-Y|T-X1|X-A-Z|L-GAMMA',
 'ORCF2': 'GAMMA-Y-C-D-X-GAMMA-Z-D1-H-C|C1-Z|X-H1|H-Y|L-GAMMA',
 'ORCF3': 'GAMMA-Y-T-Z-GAMMA-X-A1-Y|X-A-Z|L-GAMMA',
 'ORCI': 'GAMMA-X-L-T-W-R-X1-Z-GAMMA-Y-S-W|L1-Y|Y1-Z',
 'ORCC': 'GAMMA-X-S-R-A-Z-GAMMA-Y-X1-A1-T-Y|Z-T',
 'HEX': 'GAMMA-M-K-GAMMA-A-L-H-A|L-M|K-H',
 'RHL1': 'GAMMA-L-B1|B-Z-GAMMA-X|Q-F-P1-Z|L-P',
 'RHL2': 'GAMMA-P-Z-Q-GAMMA-F-P1-Q1-L-Z',
 'MCL': 'GAMMA-Y-H-C-E-M1-A-X-H1|M-D-Z|Y-D',
 'MCLC1': 'GAMMA-Y-F-L-I|I1-Z-F1|Y-X1|X-GAMMA-N|M-GAMMA',
 'MCLC2': 'GAMMA-Y-F-L-I|I1-Z-F1|N-GAMMA-M',
 'MCLC3': 'GAMMA-Y-F-H-Z-I-F1|H1-Y1-X-GAMMA-N|M-GAMMA',
 'MCLC4': 'GAMMA-Y-F-H-Z-I|H1-Y1-X-GAMMA-N|M-GAMMA',
 'MCLC5': 'GAMMA-Y-F-L-I|I1-Z-H-F1|H1-Y1-X-GAMMA-N|M-GAMMA',
 'TRI1a': 'X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA',
 'TRI2a': 'X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA',
 'TRI1b': 'X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA',
 'TRI2b': 'X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA'}

_I = np.eye(3)
_F = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2
_BI = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2
_C = np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]]) / 2
_MC = np.array([[1, -1, 0], [1, 1, 0], [0, 0, 2]]) / 2
_A = np.array([[0, 0, 2], [1, 1, 0], [-1, 1, 0]]) / 2
_R = np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3

# (a_p, b_p, c_p) = (a, b, c) M   =>   primitive rows = M.T @ conventional rows
HPKOT_MATRIX = dict(
    cP=_I, cF=_F, cI=_BI, tP=_I, tI=_BI, oP=_I, oF=_F, oI=_BI, oA=_A, oC=_C,
    hP=_I, hR=_R, mP=_I, mC=_MC, aP=_I,
)  # fmt: skip
SC_MATRIX = dict(
    cP=_I, cF=_F, cI=_BI, tP=_I, tI=_BI, oP=_I, oF=_F, oI=_BI, oA=_C, oC=_C,
    hP=_I, hR=_I, mP=_I, mC=_MC, aP=_I,
)  # fmt: skip


def family(sg):
    for last, letter in ((2, "a"), (15, "m"), (74, "o"), (142, "t"), (194, "h"), (230, "c")):
        if sg <= last:
            return letter


# First letters of the Hermann-Mauguin symbols (International Tables A) that are not P
_CENTRED = {}
for _n in (5, 8, 9, 12, 15, 20, 21, 35, 36, 37, 63, 64, 65, 66, 67, 68):
    _CENTRED[_n] = "C"
for _n in (38, 39, 40, 41):
    _CENTRED[_n] = "A"
for _n in (22, 42, 43, 69, 70, 196, 202, 203, 209, 210, 216, 219, 225, 226, 227, 228):
    _CENTRED[_n] = "F"
for _n in (
    23, 24, 44, 45, 46, 71, 72, 73, 74, 79, 80, 82, 87, 88, 97, 98, 107, 108, 109, 110,
    119, 120, 121, 122, 139, 140, 141, 142, 197, 199, 204, 206, 211, 214, 217, 220, 229,
    230,
):  # fmt: skip
    _CENTRED[_n] = "I"
for _n in (146, 148, 155, 160, 161, 166, 167):
    _CENTRED[_n] = "R"


def centring(sg):
    return _CENTRED.get(sg, "P")


def has_inversion(sg):
    """Space groups of the centrosymmetric crystal classes."""
    for lo, hi in (
        (2, 2), (10, 15), (47, 74), (83, 88), (123, 142), (147, 148), (162, 167),
        (175, 176), (191, 194), (200, 206), (221, 230),
    ):  # fmt: skip
        if lo <= sg <= hi:
            return True
    return False


def lattice_type(sg):
    return family(sg) + centring(sg)


def lattice_points(lattice, convention):
    """Lattice points in the conventional cell."""
    if lattice == "hR":
        return 1 if convention == "sc" else 3
    return dict(P=1, A=2, C=2, I=2, F=4)[lattice[1]]


def classify_hpkot(sg, conv_params, rec_angles, gap=1e-6):
    """Extended Bravais lattice symbol; set of symbols if it is numerically undecided."""
    L = lattice_type(sg)
    a, b, c, _, beta, _ = conv_params
    be = math.radians(beta)

    def below(x, y, one, two):
        """x <= y"""
        if abs(x - y) <= gap * max(abs(x), abs(y)):
            return {one, two}
        return {one} if x < y else {two}

    if L in ("cI", "tP", "oP", "mP"):
        return {L + "1"}
    if L in ("cP", "cF"):
        return {L + ("1" if sg <= 206 else "2")}
    if L == "hP":
        one = set(range(143, 150)) | set(range(159, 164)) | {151, 153, 157}
        return {"hP1" if sg in one else "hP2"}
    if L == "tI":
        return below(c, a, "tI1", "tI2")
    if L == "oF":
        x, y, z = 1 / a**2, 1 / b**2, 1 / c**2
        if x > (y + z) * (1 + gap):
            return {"oF1"}
        if z > (x + y) * (1 + gap):
            return {"oF2"}
        if x < (y + z) * (1 - gap) and z < (x + y) * (1 - gap):
            return {"oF3"}
        return {"oF1", "oF2", "oF3"}
    if L == "oI":
        m = max(a, b, c)
        return {
            s for s, v in (("oI1", c), ("oI2", a), ("oI3", b)) if v >= m * (1 - gap)
        }
    if L == "oC":
        return below(a, b, "oC1", "oC2")
    if L == "oA":
        return below(b, c, "oA1", "oA2")
    if L == "hR":
        return below(math.sqrt(3) * a, math.sqrt(2) * c, "hR1", "hR2")
    if L == "mC":
        r = below(b, a * math.sin(be), "mC1", "x")
        if "x" in r:
            r.discard("x")
            r |= below(
                -a * math.cos(be) / c + (a * math.sin(be) / b) ** 2, 1, "mC2", "mC3"
            )
        return r
    if L == "aP":
        if min(rec_angles) > 90 + 1e-4:
            return {"aP2"}
        if max(rec_angles) < 90 - 1e-4:
            return {"aP3"}
        return {"aP2", "aP3"}


def classify_sc(sg, conv_params, prim_rec_angles, symprec=1e-5, angle=1e-4):
    """Variation of the lattice; set of variations if it is numerically undecided.

    Borders that are variations of their own are as wide as the tolerances (lengths and
    ratios - ``symprec``, angles - ``angle`` degrees), results between one half and two
    tolerances from the border are not decided.
    """
    L = lattice_type(sg)
    a, b, c, alpha, _, _ = conv_params
    al = math.radians(alpha)
    plain = dict(
        cP="CUB", cF="FCC", cI="BCC", tP="TET", oP="ORC", oI="ORCI", oA="ORCC", oC="ORCC",
        hP="HEX", mP="MCL",
    )  # fmt: skip
    if L in plain:
        return {plain[L]}
    near, far = 0.5, 2.0
    if L == "tI":
        if abs(a - c) < 1e-6 * a:
            return {"BCT1", "BCT2", "ValueError"}
        return {"BCT1" if c < a else "BCT2"}
    if L == "oF":
        if b - a < far * symprec or c - b < far * symprec:
            return {"ValueError", "ORCF1", "ORCF2", "ORCF3"}
        x = 1 - (a / b) ** 2 - (a / c) ** 2
        if abs(x) < near * symprec:
            return {"ORCF3"}
        if abs(x) < far * symprec:
            return {"ORCF1", "ORCF2", "ORCF3"}
        return {"ORCF1" if x > 0 else "ORCF2"}
    if L == "hR":
        if abs(alpha - 90) < near * angle:
            return {"ValueError"}
        if abs(alpha - 90) < far * angle:
            return {"ValueError", "RHL1", "RHL2"}
        return {"RHL1" if alpha < 90 else "RHL2"}
    if L == "mC":
        kg = prim_rec_angles[2]
        if abs(kg - 90) < near * angle:
            return {"MCLC2"}
        x = b * math.cos(al) / c + (b * math.sin(al) / a) ** 2
        if kg > 90:
            out = {"MCLC1"}
        elif abs(x - 1) < near * symprec:
            out = {"MCLC4"}
        elif abs(x - 1) < far * symprec:
            out = {"MCLC3", "MCLC4", "MCLC5"}
        else:
            out = {"MCLC3" if x < 1 else "MCLC5"}
        return out | ({"MCLC2"} if abs(kg - 90) < far * angle else set())
    if L == "aP":
        r = list(prim_rec_angles)
        side = [0 if abs(v - 90) < far * angle else (1 if v > 90 else -1) for v in r]
        if 0 not in side and len(set(side)) == 1:
            return {"TRI1a" if side[0] > 0 else "TRI1b"}
        if side[0] == side[1] != 0 and abs(r[2] - 90) < near * angle:
            return {"TRI2a" if side[0] > 0 else "TRI2b"}
        if min(abs(r[0] - 90), abs(r[1] - 90)) < near * angle:
            return {"ValueError"}
        if side[0] == side[1] != 0 and side[2] == 0:
            return {"TRI1a", "TRI2a"} if side[0] > 0 else {"TRI1b", "TRI2b"}
        return {"TRI1a", "TRI1b", "TRI2a", "TRI2b", "ValueError"}
