r"""Workload generators: crystals of any space group in arbitrary settings.

Nothing here imports wulfric.  Symmetry operations come from the Hall database that is
shipped with spglib; atoms are complete orbits under those operations, so the symmetry of
the generated structure is known by construction.
"""

import math

import numpy as np
import spglib

_HALL = {}  # hall number -> (rotations, translations, number, hall_symbol)
_HALL_BY_SG = {}


def hall_numbers(sg):
    if not _HALL_BY_SG:
        for h in range(1, 531):
            t = spglib.get_spacegroup_type(h)
            _HALL_BY_SG.setdefault(int(t.number), []).append(h)
    return _HALL_BY_SG[sg]


def hall_ops(h):
    if h not in _HALL:
        d = spglib.get_symmetry_from_database(h)
        t = spglib.get_spacegroup_type(h)
        _HALL[h] = (
            np.array(d["rotations"], dtype=int),
            np.array(d["translations"], dtype=float),
            int(t.number),
            str(t.choice),
        )
    return _HALL[h]


def from_params(a, b, c, alpha, beta, gamma):
    if alpha == beta == gamma == 90 and all(x == int(x) for x in (a, b, c)):
        return np.diag([float(a), float(b), float(c)])
    al, be, ga = (math.radians(x) for x in (alpha, beta, gamma))
    cx = math.cos(be)
    cy = (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    cz = math.sqrt(max(0.0, 1 - cx * cx - cy * cy))
    return np.array(
        [
            [a, 0, 0],
            [b * math.cos(ga), b * math.sin(ga), 0],
            [c * cx, c * cy, c * cz],
        ]
    )


def params(cell):
    cell = np.asarray(cell, dtype=float)
    n = np.linalg.norm(cell, axis=1)
    ang = []
    for i, j in ((1, 2), (0, 2), (0, 1)):
        ang.append(
            math.degrees(
                math.acos(max(-1.0, min(1.0, cell[i] @ cell[j] / n[i] / n[j])))
            )
        )
    return (*n, *ang)


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def random_unimodular(rng, n=3, proper=True):
    """Product of elementary integer operations; det = +1 (or +-1)."""
    m = np.eye(3, dtype=int)
    for _ in range(n):
        i, j = rng.permutation(3)[:2]
        e = np.eye(3, dtype=int)
        e[i, j] = int(rng.choice([-1, 1]))
        m = e @ m
    p = np.eye(3, dtype=int)[rng.permutation(3)]
    m = p @ m
    if round(np.linalg.det(m)) < 0:
        m = -m
    if not proper and rng.random() < 0.5:
        m = -m
    return m


def _distinct(rng, n, lo, hi, gap):
    """n numbers in [lo, hi] with pairwise ratio at least 1+gap."""
    while True:
        x = np.exp(rng.uniform(math.log(lo), math.log(hi), size=n))
        s = np.sort(x)
        if n == 1 or np.min(s[1:] / s[:-1]) > 1 + gap:
            return x


def random_params(rng, sg, choice="", lo=3.0, hi=9.0, gap=0.03):
    p = _random_params(rng, sg, choice, lo, hi, gap)
    # whole numbers of Angstroms, as in many examples
    if (16 <= sg <= 142 or sg >= 195) and rng.random() < 0.12:
        a, b, c = (float(x) for x in rng.permutation(np.arange(3, 10))[:3])
        b = a if sg >= 75 else b
        c = a if sg >= 195 else c
        return a, b, c, 90.0, 90.0, 90.0
    return p


def _random_params(rng, sg, choice, lo, hi, gap):
    if sg <= 2:
        while True:
            a, b, c = _distinct(rng, 3, lo, hi, gap)
            al, be, ga = rng.uniform(50, 130, size=3)
            if min(abs(x - 90) for x in (al, be, ga)) < 1.5:
                continue
            ca, cb, cg = (math.cos(math.radians(x)) for x in (al, be, ga))
            if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > 0.08:
                return a, b, c, al, be, ga
    if sg <= 15:
        a, b, c = _distinct(rng, 3, lo, hi, gap)
        while True:
            x = rng.uniform(60, 130)
            if abs(x - 90) > 1.5:
                break
        ax = choice.replace("-", "")[:1] or "b"
        if ax == "a":
            return a, b, c, x, 90.0, 90.0
        if ax == "c":
            return a, b, c, 90.0, 90.0, x
        return a, b, c, 90.0, x, 90.0
    if sg <= 74:
        a, b, c = _distinct(rng, 3, lo, hi, gap)
        return a, b, c, 90.0, 90.0, 90.0
    if sg <= 142:
        a, c = _distinct(rng, 2, lo, hi, gap)
        return a, a, c, 90.0, 90.0, 90.0
    if sg <= 194:
        if choice == "R":
            a = rng.uniform(lo, hi)
            while True:
                al = rng.uniform(35, 112)
                if min(abs(al - z) for z in (60, 90, 109.4712206)) > 1.5:
                    return a, a, a, al, al, al
        while True:
            a, c = _distinct(rng, 2, lo, hi, gap)
            r = c / a
            if min(abs(r - z) for z in (math.sqrt(6), math.sqrt(1.5), math.sqrt(3 / 8))) > 0.05:
                return a, a, c, 90.0, 90.0, 120.0
    a = rng.uniform(lo, hi)
    return a, a, a, 90.0, 90.0, 90.0


def whole_rotation(rng):
    """Rotation that permutes the Cartesian axes (matrix of whole numbers)."""
    R = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], size=3)
    return R * round(np.linalg.det(R)) + 0.0


def orbit(rots, trans, x, tol=1e-6):
    pts = (np.einsum("nij,j->ni", rots, x) + trans) % 1.0
    out = []
    for p in pts:
        for q in out:
            d = p - q
            d -= np.round(d)
            if np.abs(d).max() < tol:
                break
        else:
            out.append(p)
    return np.array(out)


def min_distance(cell, pos):
    """Smallest interatomic distance (periodic, +-1 images)."""
    n = len(pos)
    sh = np.array(
        [[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]
    )
    d = pos[:, None, :] - pos[None, :, :]
    d -= np.round(d)
    best = np.inf
    for s in sh:
        r = np.linalg.norm((d + s) @ cell, axis=2)
        if not s.any():
            r = r + 1e9 * np.eye(n)
        best = min(best, r.min())
    return best


def crystal(rng, sg, hall=None, prm=None, max_atoms=110):
    """(cell, positions, types) with full symmetry of space group ``sg`` by construction.

    Returns None if no acceptable configuration was found.
    """
    for _ in range(40):
        h = hall if hall is not None else int(rng.choice(hall_numbers(sg)))
        rots, trans, number, choice = hall_ops(h)
        p = prm if prm is not None else random_params(rng, sg, choice)
        cell = from_params(*p)
        # general position (keeps the symmetry from being higher) + a special one
        pos, typ = [], []
        n_orb = int(rng.integers(1, 3))
        for t in range(n_orb):
            if t == 0:
                x = rng.uniform(0.03, 0.97, size=3)
            else:
                x = np.array(
                    [
                        rng.choice([0, 0.25, 0.5, 0.125, 1 / 3, rng.uniform(0, 1)])
                        for _ in range(3)
                    ]
                )
            o = orbit(rots, trans, x)
            pos.append(o)
            typ += [t + 1] * len(o)
        pos = np.vstack(pos)
        if len(pos) > max_atoms:
            pos = pos[: typ.count(1)]
            typ = typ[: len(pos)]
        if min_distance(cell, pos) < 0.12:
            continue
        # the symmetry must be exactly sg (no accidental extra symmetry)
        d = spglib.get_symmetry_dataset((cell, pos, typ), symprec=1e-5)
        if d is None or d.number != sg:
            continue
        d2 = spglib.get_symmetry_dataset((cell, pos, typ), symprec=2e-3)
        if d2 is None or d2.number != sg:
            continue
        return cell, pos, np.array(typ)
    return None


def change_basis(cell, pos, typ, M):
    """New cell = M @ cell (integer M, det > 0); atoms repeated as needed."""
    M = np.asarray(M)
    det = int(round(np.linalg.det(M)))
    newc = M @ cell
    inv = np.linalg.inv(M.astype(float))
    if det == 1:
        return newc, pos @ inv, typ.copy()
    # coset representatives of Z^3 / M
    r = int(np.abs(M).sum()) + 1
    reps = []
    rng_ = range(-r, r + 1)
    for i in rng_:
        for j in rng_:
            for k in rng_:
                f = np.array([i, j, k]) @ inv
                if np.all(f > -1e-9) and np.all(f < 1 - 1e-9):
                    reps.append([i, j, k])
    reps = np.array(reps, dtype=float)
    assert len(reps) == det, (len(reps), det)
    P, T = [], []
    for s in reps:
        P.append((pos + s) @ inv)
        T.append(typ)
    return newc, np.vstack(P), np.concatenate(T)


def small_rotation(rng):
    """Rotation by a small angle: elements of a cell that are almost zero."""
    w = rng.normal(size=3)
    w /= np.linalg.norm(w)
    t = 10 ** rng.uniform(-7, -1)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def scramble(rng, cell, pos, typ, supercell=1, rotate=True, shift=True, unimod=2):
    """Same crystal up to rigid motion, described by another cell / atom order."""
    M = np.eye(3, dtype=int)
    if unimod:
        M = random_unimodular(rng, unimod)
    if supercell > 1:
        D = np.eye(3, dtype=int)
        D[int(rng.integers(0, 3))] *= supercell
        M = D @ M
    c, p, t = change_basis(cell, pos, typ, M)
    R = np.eye(3)
    if rotate:
        R = small_rotation(rng) if rng.random() < 0.25 else random_rotation(rng)
        if np.all(c == np.rint(c)) and rng.random() < 0.6:
            R = whole_rotation(rng)
    c = c @ R.T
    s = rng.uniform(0, 1, size=3) if shift else np.zeros(3)
    p = p + s
    k = rng.permutation(len(p))
    p, t = p[k], t[k]
    # images: leave some atoms outside of the 000 cell
    p = p % 1.0
    p = p + rng.integers(-1, 2, size=p.shape) * (rng.random(p.shape) < 0.15)
    return c, p, t, dict(M=M, R=R, shift=s, perm=k)
