"""C18 - Wigner-Seitz cells and Brillouin zones are the closest-point regions of the lattice."""

import math

import numpy as np
from scipy.spatial import ConvexHull

import wulfric
from vlib import gen, kobs

ID = "C18"
RULE = (
    "lattices of all centrings and symmetries, elongated, skewed and left-handed bases, in"
    " units from 1e-6 to 1e6; each "
    "vertex and edge is tested against the nearest lattice points, the volume against the "
    "volume of the cell and the graph against Euler's formula; two bases of a lattice have to "
    "give one region; state = (region, centring, family, basis)"
)
ASSUMPTIONS = ["distances are judged with 1e-6 of the cube root of the volume"]
REQUIRED = {"regions judged": 120, "vertices judged": 1600, "edges judged": 2400}
MIN_STATES = 40
CASE_CPU_LIMIT = 120.0

M = [
    np.eye(3),
    np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2,
    np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2,
    np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]]) / 2,
    np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3,
]


def cases(tier, seed):
    for i in range({"quick": 200, "thorough": 2400}[tier]):
        yield dict(i=i)


def judge(mon, f, cell, lattice, what, strained=False):
    v, e = mon.call(f, cell)
    v, e = np.asarray(v, float), np.asarray(e)
    s = abs(np.linalg.det(lattice)) ** (1 / 3)
    tol = 1e-6 * s
    red = kobs.reduced(lattice)
    mon.expect(v.ndim == 2 and v.shape[1] == 3 and e.shape[1:] == (2,), "shapes", f"{v.shape}")
    mon.expect(
        e.min() >= 0 and e.max() < len(v) and np.all(e[:, 0] != e[:, 1]), f"indices:{what}", ""
    )
    mon.expect(
        len({tuple(sorted(x)) for x in e.tolist()}) == len(e), f"repeated edges:{what}", ""
    )
    d = np.linalg.norm(v[:, None] - v[None], axis=2) + np.eye(len(v)) * 1e9
    mon.expect(strained or d.min() > tol, f"repeated vertices:{what}", f"{d.min()}")
    for p in v:
        mon.count("vertices judged")
        n = kobs.nearest(p, red)
        r = np.linalg.norm(p)
        mon.close(r, n[0], tol, f"vertex outside:{what}", f"{p} of {cell}")
        mon.close(n[3], n[0], tol, f"not a vertex:{what}", f"{p} of {cell}")
    for i, j in e.tolist():
        mon.count("edges judged")
        p = (v[i] + v[j]) / 2
        n = kobs.nearest(p, red)
        mon.close(np.linalg.norm(p), n[0], tol, f"edge outside:{what}", f"{i}-{j} of {cell}")
        mon.close(n[2], n[0], tol, f"not an edge:{what}", f"{i}-{j} of {cell}")
    hull = ConvexHull(v)
    mon.close(
        hull.volume / abs(np.linalg.det(lattice)), 1, 1e-6, f"volume:{what}", f"{cell}"
    )
    mon.count("regions judged")
    if strained:  # vertices and faces can be closer than any tolerance
        return v
    mon.expect(len(hull.vertices) == len(v), f"convex:{what}", "")
    planes = np.unique(np.round(hull.equations / np.array([1, 1, 1, s]), 4), axis=0)
    # merge planes split by rounding
    faces = []
    for q in planes:
        if not any(np.abs(q - w).max() < 5e-4 for w in faces):
            faces.append(q)
    mon.expect(
        len(v) - len(e) + len(faces) == 2,
        f"graph:{what}",
        f"{len(v)} vertices, {len(e)} edges, {len(faces)} faces of {cell}",
    )
    mon.expect(len(np.unique(e)) == len(v), f"lone vertices:{what}", "")
    return v


def case(mon, spec):
    rng = mon.rng
    i = spec["i"]
    cen = i % 5
    sg = int(rng.integers(1, 231))
    c = gen.from_params(*gen.random_params(rng, sg))
    if cen == 4:
        c = gen.from_params(4.0, 4.0, float(rng.uniform(2, 12)), 90, 90, 120)
    c = M[cen] @ c
    how = str(rng.choice(["plain", "skewed", "elongated", "left", "strained"]))
    if how == "strained":
        c = c @ (np.eye(3) + rng.uniform(-1, 1, (3, 3)) * 10 ** rng.uniform(-8, -1.5))
    if how == "elongated":
        c = c * np.array([[1], [1], [float(rng.choice([3, 6, 12]))]])
    R = gen.random_rotation(rng)
    unit = 1.0 if rng.random() < 0.6 else float(10.0 ** rng.uniform(-6, 6))
    c = unit * c
    b = (gen.random_unimodular(rng, int(rng.integers(2, 12))) if how != "plain" else np.eye(3)) @ c
    if how == "left":
        b = -b
    bz = bool(i % 2)
    f = wulfric.cell.get_brillouin_zone if bz else wulfric.cell.get_wigner_seitz_cell
    L = 2 * math.pi * np.linalg.inv(b).T if bz else b
    what = "zone" if bz else "cell"
    v = judge(mon, f, b if rng.random() < 0.7 else b.tolist(), L, what, how == "strained")
    if how != "strained" and rng.random() < 0.3:
        U = gen.random_unimodular(rng, 3)
        w = judge(mon, f, U @ b @ R.T, L @ R.T if not bz else L @ R.T, what) @ R
        mon.expect(len(w) == len(v), f"two bases:{what}", "number of vertices")
        d = np.linalg.norm(v[:, None] - w[None], axis=2)
        mon.close(
            d.min(axis=0), np.zeros(len(w)), 1e-5 * np.abs(L).max(), f"two bases:{what}", ""
        )
    mon.state(what, cen, sg > 15, how, unit == 1.0)
    mon.sample(dict(what=what, how=how, centring=cen, vertices=len(v)))
