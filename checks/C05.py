"""C05 - what is reported about a crystal does not depend on how it is described."""

import itertools
import math

import numpy as np

import wulfric
from vlib import gen, published, workload
from vlib.core import Skip

ID = "C05"
RULE = (
    "pairs of descriptions of one crystal (other cell of the same lattice, supercell, rigid "
    "rotation, origin, order and images of atoms, left-handed cell, other labels of types); "
    "every reported quantity is compared; non-trivial when all quantities of a pair were "
    "compared; state = (space group, kind of re-description)"
)
ASSUMPTIONS = [
    "pairs closer than 1e-6 (relative) to the border of two variations are not judged",
]
REQUIRED = {"pairs compared": 300, "supercell pairs": 40, "left-handed pairs": 60}
MIN_STATES = 250

_N = np.array(list(itertools.product(range(-3, 4), repeat=3)))


def cases(tier, seed):
    n = {"quick": 4, "thorough": 16}[tier]
    for rep in range({"quick": 15, "thorough": 40}[tier]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(n):
        for kind in ("scrambled", "left", "rough"):
            for sg in range(16 if kind == "rough" else 1, 231):
                if tier == "quick" and (sg + rep + (kind == "left")) % 2:
                    continue
                yield dict(sg=sg, kind=kind, rep=rep)


def fingerprint(k, rcell):
    """Distances from a point to the nearest reciprocal lattice points."""
    g = _N @ rcell
    f = k @ np.linalg.inv(rcell)
    d = np.sort(np.linalg.norm(k - (np.floor(f) @ rcell) - g, axis=1))[:8]
    return d


def report(mon, cell, pos, keys, **tolerance):
    atoms = dict(positions=pos, **keys)
    sd = mon.call(wulfric.get_spglib_data, cell, atoms, **tolerance)
    kw = dict(spglib_data=sd) if tolerance or mon.rng.random() < 0.5 else {}
    out = {
        "space group": int(sd.space_group_number),
        "crystal family": sd.crystal_family,
        "centring": sd.centring_type,
    }
    out["HPKOT symbol"] = mon.call(
        wulfric.crystal.hpkot_get_extended_bl_symbol, cell, atoms, **kw
    )
    out["SC variation"] = mon.call(wulfric.crystal.sc_get_variation, cell, atoms, **kw)
    num = {}
    for conv in ("HPKOT", "SC", "spglib"):
        for f in (wulfric.crystal.get_conventional, wulfric.crystal.get_primitive):
            c, a = mon.call(f, cell, atoms, convention=conv, **kw)
            out[f"{conv} {f.__name__} number of atoms"] = len(a["positions"])
            num[f"{conv} {f.__name__} parameters"] = np.array(gen.params(c))
        if conv == "spglib":
            continue
        rc = 2 * math.pi * np.linalg.inv(c).T
        for tr in (True, False):
            path, pts = mon.call(
                wulfric.kpoints.get_path_and_points,
                cell,
                atoms,
                convention=conv,
                relative=False,
                with_time_reversal=tr,
                **kw,
            )
            out[f"{conv} path {tr}"] = path
            out[f"{conv} points {tr}"] = sorted(pts)
        for n in sorted(pts):
            num[f"{conv} |k| {n}"] = np.array([np.linalg.norm(pts[n])])
            num[f"{conv} environment of {n}"] = fingerprint(np.array(pts[n]), rc)
    return out, num, sd


def case(mon, spec):
    x = workload.make(mon, spec["sg"], spec["kind"])
    cell0, pos0, typ0 = x.base
    keys0, how0 = workload.decorate(mon.rng, typ0, extra=False)
    keys1, how1 = workload.decorate(mon.rng, x.typ, extra=False)
    # border of two variations?
    conv = wulfric.crystal.get_conventional(
        cell0, dict(positions=pos0, **keys0), convention="HPKOT"
    )[0]
    mon.calls += 1
    ra = gen.params(2 * math.pi * np.linalg.inv(conv).T)[3:]
    tolerance, near, gap = {}, {}, 1e-6
    if x.kind == "rough":
        tolerance = dict(spglib_symprec=x.symprec)
        near, gap = dict(symprec=2 * x.symprec, angle=0.05), 2 * x.symprec
    if len(published.classify_hpkot(x.sg, gen.params(conv), ra, gap=gap)) != 1:
        raise Skip()
    if x.sg <= 2:
        # the order of the vectors is decided by products of the reciprocal cell
        r = 2 * math.pi * np.linalg.inv(conv).T
        G = np.sort(np.abs([r[1] @ r[2], r[0] @ r[2], r[0] @ r[1]]))
        n = np.sort((r * r).sum(axis=1))
        if min(G[1] - G[0], G[2] - G[1], n[1] - n[0], n[2] - n[1]) < 1e-4 * n[2]:
            raise Skip()
    sc = wulfric.crystal.get_conventional(
        cell0, dict(positions=pos0, **keys0), convention="SC"
    )[0]
    m = published.SC_MATRIX[published.lattice_type(x.sg)]
    ra = gen.params(2 * math.pi * np.linalg.inv(m.T @ sc).T)[3:]
    if len(published.classify_sc(x.sg, gen.params(sc), ra, **near)) != 1:
        raise Skip()
    if near and published.classify_sc(x.sg, gen.params(sc), ra) != published.classify_sc(
        x.sg, gen.params(sc), ra, **near
    ):
        raise Skip()

    a, na, _ = report(mon, cell0, pos0, keys0, **tolerance)
    b, nb, _ = report(mon, x.cell, x.pos, keys1, **tolerance)
    mon.expect(
        a["space group"] == x.sg,
        "space group",
        f"reported {a['space group']} for a crystal of space group {x.sg}",
        cell=cell0,
        atoms=dict(positions=pos0, **keys0),
    )
    mon.expect(
        a["crystal family"] == published.family(x.sg)
        and a["centring"] == published.centring(x.sg),
        "lattice type",
        f"{a['crystal family']}{a['centring']} for space group {x.sg}",
    )
    for k in a:
        mon.expect(
            a[k] == b[k],
            f"depends on description:{k.split(' path')[0]}",
            f"{k}: {a[k]!r} and {b[k]!r} for two descriptions of a crystal of {x.sg}",
            first=(cell0, pos0, keys0),
            second=(x.cell, x.pos, keys1),
        )
    mon.expect(sorted(na) == sorted(nb), "depends on description:points", "")
    scale = max(1.0, np.abs(cell0).max() / 5)
    if x.kind == "rough":
        scale += 300 * x.tol  # angles in degrees
        mon.count("rough pairs")
    for k in na:
        mon.close(
            na[k],
            nb[k],
            2e-3 * scale,
            f"depends on description:{k.rsplit(' ', 1)[0] if '|k|' in k or 'env' in k else k}",
            f"{k} of two descriptions of a crystal of space group {x.sg}",
            first=(cell0, pos0, keys0),
            second=(x.cell, x.pos, keys1),
        )
    mon.count("pairs compared")
    mon.count("quantities compared", len(a) + len(na))
    r = abs(np.linalg.det(x.cell)) / abs(np.linalg.det(cell0))
    if r > 1.5:
        mon.count("supercell pairs")
    if spec["kind"] == "left":
        mon.count("left-handed pairs")
    mon.state(x.sg, x.kind, how0, how1)
    mon.sample(
        {k: a[k] for k in ("space group", "HPKOT symbol", "SC variation", "HPKOT path False")}
    )
