r"""Independent reference oracles.  Nothing here imports wulfric."""

import math

import numpy as np


def frac_close_matrix(cell, p, q):
    """Periodic Cartesian distances between rows of p and rows of q (relative coords)."""
    d = p[:, None, :] - q[None, :, :]
    d = d - np.round(d)
    return np.linalg.norm(d @ cell, axis=2)


def same_lattice(cell_a, cell_b, tol=1e-5):
    """True if the rows of both matrices generate the same lattice."""
    m = np.asarray(cell_b) @ np.linalg.inv(cell_a)
    return np.abs(m - np.round(m)).max() < tol and abs(abs(np.linalg.det(m)) - 1) < tol


def sublattice_index(fine, coarse, tol=1e-5):
    """Index of lattice(coarse) in lattice(fine), or None if not a sublattice."""
    m = np.asarray(coarse) @ np.linalg.inv(fine)
    if np.abs(m - np.round(m)).max() > tol:
        return None
    return int(round(abs(np.linalg.det(m))))


def translation_lattice(cell, pos, typ, tol):
    """All pure translations (relative to ``cell``, in [0,1)) of the decorated crystal."""
    pos = np.asarray(pos, float)
    typ = np.asarray(typ)
    counts = {t: int((typ == t).sum()) for t in set(typ.tolist())}
    rare = min(counts, key=lambda t: (counts[t], t))
    idx = np.where(typ == rare)[0]
    out = []
    for j in idx:
        t = pos[j] - pos[idx[0]]
        ok = True
        for k in counts:
            s = pos[typ == k]
            d = frac_close_matrix(cell, s + t, s)
            if not np.all(d.min(axis=1) < tol):
                ok = False
                break
        if ok:
            out.append(t - np.floor(t + 1e-9))
    return np.array(out)


def unmatched_atoms(cell_a, pos_a, typ_a, cell_b, pos_b, typ_b, shift, tol):
    """Atoms of crystal b (moved by Cartesian ``shift``) that are not atoms of crystal a.

    Every atom of b, taken modulo the lattice of a, must coincide with an atom of a.
    """
    inv = np.linalg.inv(cell_a)
    cart = np.asarray(pos_b, float) @ cell_b + shift
    rel = cart @ inv
    d = frac_close_matrix(cell_a, rel, np.asarray(pos_a, float))
    typ_a = np.asarray(typ_a)
    bad = []
    for i in range(len(rel)):
        ok = (d[i] < tol) & (typ_a == typ_b[i])
        if not ok.any():
            bad.append(i)
    return bad


def find_shift(cell_a, pos_a, typ_a, cell_b, pos_b, typ_b, tol):
    """Cartesian shift that maps crystal b on crystal a (None if there is none).

    Only a translation is allowed - the orientation has to be the same.
    """
    typ_a = np.asarray(typ_a)
    typ_b = np.asarray(typ_b)
    if len(typ_b) == 0 or set(typ_a.tolist()) != set(typ_b.tolist()):
        return None
    counts = {t: int((typ_b == t).sum()) for t in set(typ_b.tolist())}
    rare = min(counts, key=lambda t: (counts[t], t))
    i = int(np.where(typ_b == rare)[0][0])
    start = np.asarray(pos_b[i], float) @ cell_b
    for j in np.where(typ_a == rare)[0]:
        shift = np.asarray(pos_a[j], float) @ cell_a - start
        if not unmatched_atoms(
            cell_a, pos_a, typ_a, cell_b, pos_b, typ_b, shift, tol
        ):
            return shift
    return None


def distinct_atoms(cell, pos, tol):
    """True if no two atoms of the cell coincide modulo the lattice."""
    d = frac_close_matrix(cell, np.asarray(pos, float), np.asarray(pos, float))
    d = d + 1e9 * np.eye(len(d))
    return d.min() > tol
