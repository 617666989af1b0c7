"""C17 - the Niggli cell is a reduced cell of the same lattice, unique for the lattice."""

import numpy as np

import wulfric
from vlib import gen, kobs
from vlib.core import Violation
from checks.C04 import successive_minima

ID = "C17"
RULE = (
    "random, symmetric, integer and nearly orthogonal lattices, each given by several bases "
    "(unimodular, left-handed, rotated) to both implementations; the published conditions of "
    "a Niggli cell are evaluated with the tolerance of the call (also for lattices strained "
    "slightly off the borders of the conditions) in units from 1e-6 to 1e6; state = (kind, "
    "implementation, handedness, type of the cell)"
)
ASSUMPTIONS = [
    "conditions are judged with three times the tolerance documented for the reduction",
    "metrics are compared between bases for lattices that are not close to a border",
    "within 0.3 % of a border the wulfric implementation may raise the documented "
    "NiggliReductionFailed",
    "cells in small units are given to the spglib implementation only: the tolerance of the "
    "wulfric one is published as proportional to a length, but compared with areas",
]
REQUIRED = {"cells judged": 3000, "metrics compared": 800, "refusals observed": 100}
MIN_STATES = 16

IMPL = ("spglib", "wulfric")


def cases(tier, seed):
    for i in range({"quick": 6000, "thorough": 40000}[tier]):
        yield dict(i=i, kind=["gen", "near", "sym", "int", "centred", "strained"][i % 6])


def g6(c):
    G = c @ c.T
    return np.array([G[0, 0], G[1, 1], G[2, 2], 2 * G[1, 2], 2 * G[0, 2], 2 * G[0, 1]])


def broken(g, eps, t):
    """Broken conditions of International Tables A 9.2.2 (in units of area).

    Inequalities hold within eps, equalities are decided within t.
    """
    A, B, C, x, e, z = g
    if A > B + eps or B > C + eps:
        return "A <= B <= C"
    if abs(A - B) < t and abs(x) > abs(e) + eps:
        return "A = B"
    if abs(B - C) < t and abs(e) > abs(z) + eps:
        return "B = C"
    pos = min(x, e, z) > eps
    if not (min(x, e, z) > -eps or max(x, e, z) < eps):
        return "signs"
    if abs(x) > B + eps or abs(e) > A + eps or abs(z) > A + eps:
        return "normalised"
    if x + e + z + A + B < -eps:
        return "main condition"
    if pos:
        if abs(x - B) < t and 2 * e < z - eps:
            return "positive: xi = B"
        if abs(e - A) < t and 2 * x < z - eps:
            return "positive: eta = A"
        if abs(z - A) < t and 2 * x < e - eps:
            return "positive: zeta = A"
    elif max(x, e, z) < -eps:
        if abs(x + B) < t and abs(z) > eps:
            return "negative: xi = -B"
        if abs(e + A) < t and abs(z) > eps:
            return "negative: eta = -A"
        if abs(z + A) < t and abs(e) > eps:
            return "negative: zeta = -A"
        if abs(x + e + z + A + B) < t and 2 * (A + e) + z > eps:
            return "negative: xi + eta + zeta + A + B = 0"
    return None


def undecided(g, t):
    """A condition is close to equality, but not equal within rounding."""
    A, B, C, x, e, z = g
    r = [B - A, C - B, x, e, z, B - abs(x), A - abs(e), A - abs(z), x + e + z + A + B]
    r += [2 * e - z, 2 * x - z, 2 * x - e, 2 * (A + e) + z]
    return any(1e-11 * C < abs(v) < t for v in r)


def case(mon, spec):
    rng = mon.rng
    kind = spec["kind"]
    strain = 1.0
    while True:
        if kind == "gen":
            c = rng.normal(size=(3, 3)) * rng.uniform(1, 8)
        elif kind == "near":
            d = rng.uniform(-1, 1, 3) * 10 ** rng.uniform(-3, 0.5)
            c = gen.from_params(*rng.uniform(2, 8, 3), *(90 - d))
        elif kind == "int":
            c = rng.integers(-3, 4, size=(3, 3)).astype(float) * rng.uniform(1, 3)
        else:
            c = gen.from_params(*gen.random_params(rng, int(rng.integers(1, 231))))
            if kind == "centred" or (kind == "strained" and rng.random() < 0.6):
                m = [
                    [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
                    [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
                    [[1, 1, 0], [-1, 1, 0], [0, 0, 2]],
                ][int(rng.integers(3))]
                c = np.array(m) @ c / 2
            if kind == "strained":
                # close to the borders of the conditions
                strain = 10 ** rng.uniform(-5, -1.5)
                c = c @ (np.eye(3) + rng.uniform(-1, 1, (3, 3)) * strain)
        if abs(np.linalg.det(c)) > 0.5:
            break
    unit = float(10 ** rng.uniform(-6, 6)) if rng.random() < 0.25 else 1.0
    c = unit * c
    length = abs(np.linalg.det(c)) ** (1 / 3)
    tols = dict(spglib=1e-5 * length**2, wulfric=1e-5 * length)
    mn = successive_minima(kobs.reduced(c), r=2)
    metrics = {}
    for k in range(2):
        b = gen.random_unimodular(rng, int(rng.integers(0, 9)), proper=False) @ c
        if rng.random() < 0.5:
            b = b @ gen.random_rotation(rng).T
        for im in IMPL if unit >= 1 else IMPL[:1]:
            eps = tols[im]
            given = b.copy() if rng.random() < 0.7 else b.tolist()
            kw = dict(implementation=im) if im != "spglib" or rng.random() < 0.5 else {}
            try:
                n = np.asarray(mon.call(wulfric.cell.get_niggli, given, **kw))
            except Violation as e:
                # the published algorithm can cycle if its equalities hold for some of the
                # equivalent cells and do not hold for others; this is documented
                if "NiggliReductionFailed" in e.mechanism and im == "wulfric" and strain < 3e-3:
                    mon.count("documented failures at a border")
                    continue
                raise
            mon.expect(n.shape == (3, 3), f"shape:{im}", f"{n}")
            mon.count("cells judged")
            m = n @ np.linalg.inv(b)
            mon.close(m, np.round(m), 1e-5, f"same lattice:{im}", f"{kind}: {b.tolist()}")
            mon.close(np.linalg.det(m), 1.0, 1e-5, f"volume and orientation:{im}", kind)
            g = g6(n)
            size = np.sqrt(g[2])
            mon.close(
                np.linalg.norm(n, axis=1),
                mn,
                20 * eps * max(1.0, 1 / length),
                f"shortest vectors:{im}",
                f"{kind}: {b.tolist()}",
            )
            why = broken(g, 9 * eps, eps / 10 if kind == "strained" else eps)
            mon.expect(
                why is None, f"condition {why}:{im}", f"{kind}: {b.tolist()} -> {n.tolist()}"
            )
            metrics[k, im] = g
            mon.state(kind, im, unit == 1, np.linalg.det(b) > 0, "I" if min(g[3:]) > eps else "II")
    if kind not in ("near", "strained") and not any(
        undecided(g, 20 * max(tols.values())) for g in metrics.values()
    ):  # these are close to borders, where the form jumps
        for key, g in metrics.items():
            mon.count("metrics compared")
            mon.close(
                g,
                next(iter(metrics.values())),
                60 * max(tols.values()) if unit >= 1 else 60 * tols["spglib"],
                "metric depends on the basis",
                f"{kind} {key}: {c.tolist()}",
            )
    if rng.random() < 0.3:
        flat = c.copy()
        flat[int(rng.integers(3))] = 0
        mon.count("flat cells given")
        for im in IMPL:
            mon.refuses(ValueError, wulfric.cell.get_niggli, flat, implementation=im)
        mon.refuses(ValueError, wulfric.cell.get_niggli, c, implementation="unknown")
    mon.sample(dict(kind=kind, metric=g))
