"""C34 - the unit of length changes nothing but the numbers measured in it."""

import functools

import numpy as np

import spglib
import wulfric
from vlib import gen, workload
from vlib.core import Skip

ID = "C34"
RULE = (
    "crystals of all space groups and lattices in two units of length (powers of two between 1/4 "
    "and 256, for which arithmetic is exactly similar, and any numbers), tolerances of length in "
    "the same unit; every result in the second unit is compared with the scaled result in the "
    "first one; state = (function, unit is a power of two, crystal family)"
)
ASSUMPTIONS = [
    "for units that are not powers of two rounding may choose another equivalent cell, so only "
    "numbers that do not depend on the choice are compared",
    "variations at the borders of ORCF and MCLC lattices and cells of triclinic lattices with "
    "equal lengths are not compared: the tolerance (a length) of the former is used for ratios",
    "the wulfric implementation of the Niggli reduction has a tolerance in units of length, so "
    "it is not compared",
]
REQUIRED = {
    "symmetry data compared": 600,
    "cells compared": 3000,
    "paths compared": 600,
    "cell functions compared": 3000,
    "regions compared": 10,
}
MIN_STATES = 60
FAMILY = [2, 15, 74, 142, 194, 230]


def cases(tier, seed):
    for rep in range({"quick": 3, "thorough": 40}[tier]):
        for sg in range(1, 231):
            kind = ["scrambled", "plain", "left", "degenerate"][(sg + rep) % 4]
            if kind == "degenerate" and sg > 194:
                kind = "plain"
            yield dict(sg=sg, kind=kind, rep=rep)
        for k in range(60):
            yield dict(sg=1 + k % 15, kind=("scrambled", "degenerate")[k % 2], rep=1000 * rep + k)
        for f in (workload.focus_specs, workload.near_specs, workload.edge_specs):
            yield from f(rep)


def similar(mon, got, want, what, note, size=0.0):
    """Numbers are equal up to rounding."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    mon.expect(got.shape == want.shape, f"shape:{what}", f"{got.shape} {want.shape}. {note}")
    size = max(float(np.abs(want).max()) if want.size else 0.0, size, 1e-30)
    mon.close(got / size, want / size, 1e-6, what, note)


def found(cell, atoms, symprec):
    """spglib can work with this description (cells of many thousands are refused by it)."""
    types = wulfric.get_spglib_types(atoms)
    try:
        r = spglib.get_symmetry_dataset((cell, atoms["positions"], types), symprec=symprec)
    except Exception:  # noqa: BLE001
        r = None
    if r is None:
        raise Skip("spglib does not find the symmetry")


class Border:
    """Refusal of a lattice at a border of the SC convention."""


def ends(f):
    @functools.wraps(f)
    def g(*args, **kwargs):
        try:
            return f(*args, **kwargs)
        except ValueError:
            return Border

    return g


def case(mon, spec):
    rng = mon.rng
    x = workload.make(mon, spec["sg"], spec["kind"])
    keys, how = workload.decorate(rng, x.typ, extra=False)
    atoms = workload.atoms_of(x, keys)
    power = bool(rng.random() < 0.7)
    s = float(2.0 ** rng.integers(-2, 9)) if power else float(np.exp(rng.uniform(-1.2, 4)))
    if s == 1.0:
        s = 4.0
    while s * np.abs(x.cell).max() > 4000:
        s /= 4
    c1 = np.array(x.cell)
    c2 = s * c1
    note = f"{spec}, unit {s}"
    family = sum(spec["sg"] > f for f in FAMILY)

    def both(name, f, *args, **kw):
        """The function for both cells; each argument is a pair (first unit, second unit)."""
        a = [
            mon.call(f, *[q[k] for q in args], **{key: q[k] for key, q in kw.items()})
            for k in (0, 1)
        ]
        mon.state(name, power, family)
        return a

    same = lambda v: (v, v)
    C = (c1, c2)
    A = same(atoms)
    found(c1, atoms, 1e-5)
    found(c2, atoms, 1e-5 * s)
    sd = both("get_spglib_data", wulfric.get_spglib_data, C, A, spglib_symprec=(1e-5, 1e-5 * s))
    for name in ("space_group_number", "crystal_family", "centring_type"):
        mon.expect(
            getattr(sd[0], name) == getattr(sd[1], name),
            f"symmetry:{name}",
            f"{getattr(sd[0], name)}, {getattr(sd[1], name)}. {note}",
        )
    mon.count("symmetry data compared")
    D = tuple(sd)
    border = spec["kind"] not in ("scrambled", "plain", "left")
    # powers of two: all roundings are the same, so are the decisions at borders
    sharp = not border or (power and sd[0].crystal_family != "a")
    # ... but for those of spglib, when two of its cells are equally short,
    if border and sharp:
        q = [np.array(gen.params(np.array(d.conventional_cell))) for d in sd]
        q[1][:3] /= s
        if not np.allclose(q[0], q[1], rtol=1e-6):
            sharp = False
            mon.count("cells of spglib that differ at a border")
    # ... and for the ones with a length as the tolerance of a ratio
    no_sc = border and sd[0].crystal_family + sd[0].centring_type in ("oF", "mC")
    # --------------------------------------------------------- conventional and primitive
    for f in ("get_conventional", "get_primitive"):
        for conv in ("HPKOT", "SC", "spglib"):
            r = both(
                f, getattr(wulfric.crystal, f), C, A, convention=same(conv), spglib_data=D
            )
            (k1, a1), (k2, a2) = r
            p1 = np.array(gen.params(np.array(k1)))
            p2 = np.array(gen.params(np.array(k2)))
            p2[:3] /= s
            if conv != "spglib" and (f == "get_conventional" or conv == "SC") and sharp:
                similar(mon, p2[:3], p1[:3], f"lengths:{f}:{conv}", note)
                similar(mon, p2[3:], p1[3:], f"angles:{f}:{conv}", note)
            similar(
                mon,
                abs(np.linalg.det(k2)) / s**3,
                abs(np.linalg.det(k1)),
                f"volume:{f}:{conv}",
                note,
            )
            mon.expect(
                len(a1["positions"]) == len(a2["positions"]), f"number:{f}:{conv}", note
            )
            mon.count("cells compared")
    if sharp:
        refused = None
        for name in ("sc_get_variation", "hpkot_get_extended_bl_symbol"):
            f = getattr(wulfric.crystal, name)
            if name == "sc_get_variation":
                if no_sc:
                    refused = "SC"
                    continue
                f = ends(f)
            a, b = both(name, f, C, A, spglib_data=D)
            mon.expect(a == b, f"{name}", f"{a}, {b}. {note}")
            if a is Border:
                # borders that are documented to be refused
                refused = "SC"
                mon.count("borders refused in both units")
        for conv in ("HPKOT", "SC"):
            if conv == refused:
                continue
            a, b = both(
                "Kpoints.from_crystal",
                wulfric.Kpoints.from_crystal,
                C, A, convention=same(conv), n=same(5), spglib_data=D,
            )
            mon.expect(a.path_string == b.path_string, f"path:{conv}", note)
            mon.expect(a.hs_names == b.hs_names, f"names:{conv}", note)
            length = lambda kp: [np.linalg.norm(kp.hs_coordinates[n] @ kp.rcell) for n in kp.hs_names]
            similar(mon, np.array(length(b)) * s, length(a), f"lengths of points:{conv}", note)
            similar(mon, b.flat_points() * s, a.flat_points(), f"flat points:{conv}", note)
            similar(mon, b.ticks() * s, a.ticks(), f"ticks:{conv}", note)
            mon.count("paths compared")
    # ------------------------------------------------------------------------ cells
    # far from the documented tolerance of parallelepiped_check (1e-8)
    if power:
        s = float(2.0 ** rng.integers(-18, 30))
    else:
        s = float(10 ** rng.uniform(-5, 9))
    c2 = s * c1
    C = (c1, c2)
    note = f"{spec}, unit of cells {s}"
    w = wulfric.cell

    def law(name, f, degree, *args, **kw):
        a, b = both(name, f, *args, **kw)
        size = np.abs(c1).max() ** degree
        similar(mon, np.asarray(b, float) * s**-degree, a, f"{name}", note, size)
        mon.count("cell functions compared")

    R = gen.random_rotation(rng)
    other = (c1 @ R, c2 @ R)
    law("get_reciprocal", w.get_reciprocal, -1, C)
    law("get_scalar_products", w.get_scalar_products, 2, C)
    law("get_transformation_matrix", w.get_transformation_matrix, 0, C, other)
    a, b = both("get_params", w.get_params, C)
    similar(mon, np.array(b[:3]) / s, a[:3], "lengths of get_params", note)
    similar(mon, b[3:], a[3:], "angles of get_params", note)
    law(
        "from_params", w.from_params, 1,
        *[(a[i] * (1 if i > 2 else 1), a[i] * (1 if i > 2 else s)) for i in range(6)],
    )
    law("get_lattice_points", w.get_lattice_points, 1, C, range=same((1, 2, 0)))
    if power or spec["kind"] == "plain":
        a, b = both("get_niggli", w.get_niggli, C)
        m = np.linalg.norm
        if power:
            similar(mon, np.asarray(b) / s, a, "get_niggli", note)
        similar(mon, m(b, axis=1) / s, m(a, axis=1), "lengths of get_niggli", note)
    law("get_volume", wulfric.geometry.get_volume, 3, C)
    n = len(atoms["positions"])
    i, j = int(rng.integers(n)), int(rng.integers(n))
    law("get_vector", wulfric.crystal.get_vector, 1, C, A, same(i), same(j), R=same((1, 0, -2)))
    law("get_distance", wulfric.crystal.get_distance, 1, C, A, same(i), same(j), R=same((1, 0, 2)))
    law("get_angle", wulfric.geometry.get_angle, 0, (c1[0], c2[0]), (c1[1], c2[1]))
    v = rng.normal(size=3)
    a, b = both("get_spherical", wulfric.geometry.get_spherical, (v, s * v), in_degrees=same(True))
    similar(mon, [b[0] / s, *b[1:]], a, "get_spherical", note)
    if rng.random() < 0.04:
        for f, deg in ((w.get_wigner_seitz_cell, 1), (w.get_brillouin_zone, -1)):
            (v1, e1), (v2, e2) = both(f.__name__, f, C)
            mon.expect(len(v1) == len(v2) or not power, f.__name__, note)
            v2 = v2 * s**-deg
            d = np.linalg.norm(v1[:, None] - v2[None], axis=2) / np.abs(v1).max()
            mon.close(d.min(axis=0), np.zeros(len(v2)), 1e-5, f"{f.__name__}", note)
            mon.close(d.min(axis=1), np.zeros(len(v1)), 1e-5, f"{f.__name__}", note)
            mon.count("regions compared")
    mon.sample(dict(spec=spec, unit=s, group=sd[0].space_group_number))
