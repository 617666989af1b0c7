"""C16 - cells, their parameters, reciprocal cells and transformations are consistent."""

import itertools
import math

import numpy as np

import wulfric
from vlib import gen

ID = "C16"
RULE = (
    "random cells (skewed, left-handed, needle and plate like, scaled by 1e-3 - 1e3, lists and "
    "arrays) and random parameters, also at the border of what is possible; defining "
    "equations are evaluated on the results; state = (kind, form, handedness)"
)
ASSUMPTIONS = ["angles closer than 0.05 degrees to the border are not used for round trips"]
REQUIRED = {
    "cells judged": 1500,
    "parameters judged": 800,
    "refusals observed": 300,
    "transformations": 1000,
}
MIN_STATES = 16
C = wulfric.cell


def cases(tier, seed):
    for i in range({"quick": 10000, "thorough": 60000}[tier]):
        yield dict(i=i)


def random_cell(rng):
    kind = str(rng.choice(["normal", "skewed", "needle", "params", "integer"]))
    while True:
        if kind == "integer":
            c = rng.integers(-4, 5, size=(3, 3)).astype(float)
        elif kind == "params":
            c = gen.from_params(*gen.random_params(rng, int(rng.integers(1, 231))))
            c = c @ gen.random_rotation(rng).T
        else:
            c = rng.normal(size=(3, 3))
            if kind == "skewed":
                c = gen.random_unimodular(rng, 5) @ c
            if kind == "needle":
                c[0] *= 30
        n = np.linalg.norm(c, axis=1)
        if n.min() > 0.1 and abs(np.linalg.det(c)) > 0.01 * n.prod():
            break
        if kind == "skewed" and abs(np.linalg.det(c)) > 1e-4 * n.prod() and n.min() > 0.1:
            break
    return kind, c * float(10 ** rng.uniform(-3, 3) if rng.random() < 0.3 else 1.0)


def possible(a, b, c, al, be, ga, margin):
    """Parameters of a parallelepiped, None if closer to the border than ``margin``."""
    conds = [
        min(a, b, c),
        min(al, be, ga),
        180 - max(al, be, ga),
        al + be - ga,
        al + ga - be,
        be + ga - al,
        360 - al - be - ga,
    ]
    if min(conds[1:]) > margin and conds[0] > 1e-6:
        return True
    if min(conds[1:]) < -margin or conds[0] < -1e-6:
        return False
    return None


def case(mon, spec):
    rng = mon.rng
    kind, c = random_cell(rng)
    given = [c, c.tolist(), tuple(map(tuple, c.tolist()))][int(rng.integers(3))]
    size = np.linalg.norm(c, axis=1).max()
    r = mon.call(C.get_reciprocal, given)
    cond = np.linalg.cond(c)
    mon.close(
        np.asarray(r) @ c.T, 2 * math.pi * np.eye(3), 1e-11 * cond, "b_i a_j = 2 pi", kind
    )
    mon.close(
        mon.call(C.get_reciprocal, r), c, 1e-12 * cond * size, "reciprocal twice", kind
    )
    # parameters: lengths and angles from their definition
    p = mon.call(C.get_params, given)
    mon.expect(len(p) == 6, "number of parameters", f"{p}")
    mon.close(p[:3], np.sqrt((c * c).sum(axis=1)), 1e-12 * size, "lengths", kind)
    for i, (j, k) in enumerate(((1, 2), (0, 2), (0, 1))):
        cr = np.linalg.norm(np.cross(c[j], c[k]))
        ang = math.degrees(math.atan2(cr, float(c[j] @ c[k])))
        mon.close(p[3 + i], ang, 1e-5, f"angle {i}", kind)
    sp = mon.call(C.get_scalar_products, given)
    mon.close(
        sp,
        [(c[1] * c[2]).sum(), (c[0] * c[2]).sum(), (c[0] * c[1]).sum()],
        1e-12 * size**2,
        "scalar products",
        kind,
    )
    mon.count("cells judged")
    # parameters -> cell -> parameters
    if min(p[3:]) > 0.5 and max(p[3:]) < 179.5 and possible(*p, 0.05):
        n = np.asarray(mon.call(C.from_params, *p))
        q = gen.params(n)
        mon.close(q[:3], p[:3], 1e-6 * size, "lengths of from_params", f"{p}")
        mon.close(q[3:], p[3:], 2e-3, "angles of from_params", f"{p}")
        mon.close(
            [n[0, 1], n[0, 2], n[1, 2]], [0, 0, 0], 1e-12 * size, "orientation", f"{p}"
        )
        mon.expect(
            n[0, 0] > 0 and n[1, 1] > 0 and n[2, 2] > 0, "orientation", f"{p} -> {n.tolist()}"
        )
        mon.close(
            abs(np.linalg.det(n)) / abs(np.linalg.det(c)), 1, 1e-3 * max(1, cond), "volume", f"{p}"
        )
    # random parameters
    a, b, cc = rng.uniform(0.5, 10, size=3)
    al, be, ga = rng.uniform(2, 178, size=3)
    if rng.random() < 0.1:
        a, b, cc = rng.permutation([a, b, -cc])
    if rng.random() < 0.1:
        al, be, ga = rng.permutation([al, be, float(rng.choice([-20, 190, 200, 359]))])
    v = possible(a, b, cc, al, be, ga, 0.05)
    if v is not None:
        mon.count("parameters judged")
        got = mon.call(wulfric.geometry.parallelepiped_check, a, b, cc, al, be, ga)
        mon.expect(bool(got) == v, "parallelepiped", f"{(a, b, cc, al, be, ga)}: {got}")
        if v:
            n = mon.call(C.from_params, a, b, cc, al, be, ga)
            q = gen.params(np.asarray(n))
            mon.close(q[:3], [a, b, cc], 1e-6, "lengths of from_params", "")
            mon.close(q[3:], [al, be, ga], 2e-3, "angles of from_params", "")
            mon.close(
                mon.call(wulfric.geometry.get_volume, a, b, cc, al, be, ga),
                abs(np.linalg.det(n)),
                1e-6,
                "volume from parameters",
                f"{(a, b, cc, al, be, ga)}",
            )
            mon.expect(
                mon.call(
                    wulfric.geometry.parallelepiped_check, a, b, cc, al, be, ga, raise_error=True
                ),
                "parallelepiped",
                "",
            )
        else:
            mon.refuses(ValueError, C.from_params, a, b, cc, al, be, ga)
            mon.refuses(
                ValueError,
                wulfric.geometry.parallelepiped_check,
                a, b, cc, al, be, ga,
                raise_error=True,
            )  # fmt: skip
    # transformation matrices: (new vectors) = (old vectors) P, composition and inverse
    _, d = random_cell(rng)
    _, e = random_cell(rng)
    P = np.asarray(mon.call(C.get_transformation_matrix, given, d.tolist()))
    s = np.abs(d).max()
    mon.close(P.T @ c, d, 1e-11 * cond * s, "transformation", kind)
    Q = np.asarray(mon.call(C.get_transformation_matrix, d, e))
    R = np.asarray(mon.call(C.get_transformation_matrix, c, e))
    mon.close(
        P @ Q, R, 1e-10 * cond * np.linalg.cond(d) * (1 + np.abs(R).max()), "composition", kind
    )
    mon.count("transformations")
    mon.state(kind, type(given).__name__, np.linalg.det(c) > 0)
    mon.sample(dict(kind=kind, params=p))
