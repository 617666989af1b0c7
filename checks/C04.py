"""C04 - conventional cells satisfy the definition of their convention."""

import itertools
import math

import numpy as np
import spglib

import wulfric
from vlib import gen, published, workload

ID = "C04"
RULE = (
    "crystals of all 230 space groups, also with metrics more symmetric than the crystal; "
    "the metric and the symmetry operations of the returned conventional cell are measured "
    "independently and compared with the published definition of the cell; "
    "state = (lattice type, kind, convention)"
)
ASSUMPTIONS = [
    "symmetry operations of an output are found with spglib",
    "orderings are judged with 1e-4 A and 1e-3 degrees",
]
REQUIRED = {"cells judged": 1500, "settings judged": 300, "degenerate": 100}
MIN_STATES = 100

L_TOL, A_TOL = 1e-4, 1e-3


def cases(tier, seed):
    n = {"quick": 2, "thorough": 10}[tier]
    for rep in range({"quick": 30, "thorough": 60}[tier]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(n):
        for kind in ("plain", "scrambled", "left", "degenerate", "rough"):
            for sg in range(1, 195 if kind == "degenerate" else 231):
                yield dict(sg=sg, kind=kind, rep=rep)
        for k in range(100):
            yield dict(sg=1 + k % 2, kind="strained", rep=1000 + rep * 100 + k)
        for k in range(60):
            for kind in ("scrambled", "degenerate"):
                yield dict(sg=1 + k % 15, kind=kind, rep=1000 + rep * 60 + k)


def successive_minima(basis, r=4):
    pts = np.array(list(itertools.product(range(-r, r + 1), repeat=3)))
    v = pts @ basis
    n = np.linalg.norm(v, axis=1)
    out = []
    for i in np.argsort(n, kind="stable"):
        if n[i] < 1e-9:
            continue
        m = np.array(out + [pts[i]])
        if np.linalg.matrix_rank(m) == len(m):
            out.append(pts[i])
            if len(out) == 3:
                break
    return np.linalg.norm(np.array(out) @ basis, axis=1)


def rotations(cell, atoms):
    d = spglib.get_symmetry_dataset(
        (cell, atoms["positions"], atoms["spglib_types"]), symprec=1e-4
    )
    return {tuple(r.flatten().tolist()) for r in d.rotations}, int(d.number)


_STD = {}


def standard_rotations(sg):
    if sg not in _STD:
        h = gen.hall_numbers(sg)[0]
        _STD[sg] = {tuple(r.flatten().tolist()) for r in gen.hall_ops(h)[0]}
    return _STD[sg]


def case(mon, spec):
    x = workload.make(mon, spec["sg"], spec["kind"])
    if x.kind == "degenerate":
        mon.count("degenerate")
    keys, how = workload.decorate(mon.rng, x.typ, extra=False)
    atoms = workload.atoms_of(x, keys)
    own = workload.own_data(mon, x, atoms)
    sg = x.sg
    L = published.lattice_type(sg)
    scale = max(1.0, np.abs(x.cell).max() / 5)
    lt = L_TOL * scale

    def le(u, v, what, tol):
        mon.expect(u <= v + tol, what, f"{what}: {u:.6f} <= {v:.6f}", cell=x.cell)

    def eq(u, v, what, tol):
        mon.expect(abs(u - v) <= tol, what, f"{what}: {u:.6f} == {v:.6f}", cell=x.cell)

    for conv in ("HPKOT", "SC", "spglib"):
        c, a = mon.call(wulfric.crystal.get_conventional, x.cell, atoms, convention=conv, **own)
        c = np.array(c, float)
        A, B, C, al, be, ga = gen.params(c)
        w = f"{conv} {L}:"
        mon.expect(np.linalg.det(c) > 0, w + "left-handed", f"{w} det = {np.linalg.det(c)}")
        rot = None
        if L[0] == "c":
            eq(A, B, w + "a=b", lt), eq(A, C, w + "a=c", lt)
        if L[0] in "cto":
            eq(al, 90, w + "alpha=90", A_TOL)
            eq(be, 90, w + "beta=90", A_TOL)
            eq(ga, 90, w + "gamma=90", A_TOL)
        if L[0] == "t":
            eq(A, B, w + "a=b", lt)
        if L == "hP" or (L == "hR" and conv != "SC"):
            eq(A, B, w + "a=b", lt)
            eq(al, 90, w + "alpha=90", A_TOL)
            eq(be, 90, w + "beta=90", A_TOL)
            eq(ga, 120, w + "gamma=120", A_TOL)
        if L == "hR" and conv == "SC":
            eq(A, B, w + "a=b", lt), eq(A, C, w + "a=c", lt)
            eq(al, be, w + "alpha=beta", A_TOL), eq(al, ga, w + "alpha=gamma", A_TOL)
            rot, _ = rotations(c, a)
            mon.expect(
                (0, 0, 1, 1, 0, 0, 0, 1, 0) in rot,
                w + "three-fold axis",
                f"{w} the three-fold axis is not a1+a2+a3",
            )
        if L[0] == "o" and conv == "SC":
            le(A, B, w + "a<=b", lt)
            if L in ("oP", "oF", "oI"):
                le(B, C, w + "b<=c", lt)
        if L[0] == "m":
            if conv == "SC":
                eq(be, 90, w + "beta=90", A_TOL), eq(ga, 90, w + "gamma=90", A_TOL)
                le(al, 90, w + "alpha<=90", A_TOL)
                if L == "mP":
                    le(B, C, w + "b<=c", lt)
                axis = 0
            else:
                eq(al, 90, w + "alpha=90", A_TOL), eq(ga, 90, w + "gamma=90", A_TOL)
                le(90, be, w + "beta>=90", A_TOL)
                axis = 1
            rot, _ = rotations(c, a)
            two = -np.eye(3, dtype=int)
            two[axis, axis] = 1
            mon.expect(
                tuple(two.flatten().tolist()) in rot or tuple((-two).flatten().tolist()) in rot,
                w + "unique axis",
                f"{w} axis {axis + 1} is not the unique axis",
                cell=x.cell,
                atoms=atoms,
            )
        if L[0] == "a":
            rc = 2 * math.pi * np.linalg.inv(c).T
            ra = gen.params(rc)[3:]
            if conv == "HPKOT":
                mon.expect(
                    min(ra) >= 90 - A_TOL or max(ra) <= 90 + A_TOL,
                    w + "reciprocal angles",
                    f"{w} reciprocal angles {ra} are neither all acute nor all obtuse",
                )
                mn = successive_minima(rc)
                mon.close(
                    np.sort(np.linalg.norm(rc, axis=1)) / mn[0],
                    mn / mn[0],
                    1e-4,
                    w + "reduced reciprocal cell",
                    f"{w} lengths of reciprocal vectors and the shortest ones",
                )
                dots = [abs(rc[1] @ rc[2]), abs(rc[0] @ rc[2]), abs(rc[0] @ rc[1])]
                le(
                    dots[2] / mn[0] ** 2,
                    min(dots) / mn[0] ** 2,
                    w + "smallest product of b1 and b2",
                    1e-4,
                )
            if conv == "SC":
                # angles of the reciprocal cell: all obtuse, k_gamma the smallest; or all
                # acute, k_gamma the largest
                ok = (min(ra) >= 90 - A_TOL and ra[2] <= min(ra) + A_TOL) or (
                    max(ra) <= 90 + A_TOL and ra[2] >= max(ra) - A_TOL
                )
                mon.expect(ok, w + "reciprocal angles", f"{w} reciprocal angles {ra}")
        if conv != "SC" and L[0] != "a":
            if rot is None:
                rot, _ = rotations(c, a)
            mon.expect(
                rot == standard_rotations(sg),
                w + "setting",
                f"{w} operations of the returned cell of space group {sg} are not the ones "
                "of the standard setting",
                cell=x.cell,
                atoms=atoms,
            )
            mon.count("settings judged")
        mon.count("cells judged")
        mon.state(L, x.kind, conv)
    mon.sample(dict(sg=sg, kind=x.kind, params=gen.params(x.cell)))
