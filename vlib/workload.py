r"""Crystal workloads shared by the checks (nothing here imports wulfric)."""

import math
from dataclasses import dataclass, field

import numpy as np
import spglib

from vlib import gen
from vlib.core import Skip

SPECIES = ["Cr", "Br", "Fe", "Mn", "Ni", "Cl", "Ti", "Zn"]


@dataclass
class Crystal:
    cell: np.ndarray
    pos: np.ndarray
    typ: np.ndarray
    sg: int
    tol: float  # tolerance (absolute, units of length) for atoms of the outputs
    symprec: float
    kind: str
    base: tuple = None  # description before scrambling
    sg_known: bool = True
    info: dict = field(default_factory=dict)


def degenerate_params(rng, sg):
    """Metrics more symmetric than the crystal."""
    a = rng.uniform(3, 6)
    r = rng.uniform(1.1, 1.8)
    if sg <= 2:
        opts = [
            (a, a, a, 90, 90, 90),
            (a, a, a * r, 90, 90, 90),
            (a, a * r, a * r * 1.2, 90, 90, 90),
            (a, a, a * r, 90, 90, 120),
            (a, a, a, 60, 60, 60),
            (a, a, a, 75, 75, 75),
            (a, a * r, a * 1.9, 90, 104, 90),
            (a, a * r, a * 1.9, 90, 90, 77),
            (a, a * r, a * 1.9, 77, 90, 90),
            (a, a, a, 80, 80, 80),
            (a, a * r, a * 1.9, 80, 75, 90),
            (a, a, a * 1.3, 80, 75, 82),
        ]
    elif sg <= 15:
        opts = [
            (a, a, a, 90, 90, 90),
            (a, a * r, a * 1.9, 90, 90, 90),
            (a, a * r, a, 90, 90, 90),
            (a, a * r, a, 90, 110, 90),
            (a, a, a * r, 90, 100, 90),
            (a, a * r, a, 90, 120, 90),
        ]
    elif sg <= 74:
        opts = [
            (a, a, a, 90, 90, 90),
            (a, a, a * r, 90, 90, 90),
            (a * r, a, a, 90, 90, 90),
            (a, a * r, a, 90, 90, 90),
            (a, a * math.sqrt(3), a * r, 90, 90, 90),
        ]
    elif sg <= 142:
        opts = [
            (a, a, a, 90, 90, 90),
            (a, a, a * math.sqrt(2), 90, 90, 90),
            (a, a, a / math.sqrt(2), 90, 90, 90),
        ]
    elif sg <= 194:
        opts = [
            (a, a, a * math.sqrt(6), 90, 90, 120),
            (a, a, a * math.sqrt(1.5), 90, 90, 120),
            (a, a, a * math.sqrt(3 / 8), 90, 90, 120),
            (a, a, a, 90, 90, 120),
        ]
    else:
        opts = [(a, a, a, 90, 90, 90)]
    i = int(rng.integers(len(opts)))
    return i, opts[i]


def strained(rng, sg):
    """Triclinic crystal, its metric is almost that of another (centred) lattice."""
    cell = gen.from_params(*gen.random_params(rng, int(rng.integers(1, 231))))
    cell = CENTRED[int(rng.integers(len(CENTRED)))] @ cell
    while np.linalg.norm(cell, axis=1).min() < 3:
        cell = 1.2 * cell
    cell = cell @ (np.eye(3) + rng.uniform(-1, 1, (3, 3)) * 10 ** rng.uniform(-8, -1.5))
    pos = rng.uniform(size=(3, 3)) * 0.9 + 0.02
    typ = np.array([1, 2, 3])
    if sg == 2:
        pos, typ = np.concatenate((pos, -pos)), np.concatenate((typ, typ))
    d = np.linalg.norm((pos[:, None] - pos[None] - np.round(pos[:, None] - pos[None])) @ cell, axis=2)
    if (d + 9 * np.eye(len(d))).min() < 0.1:
        return None
    return cell, pos, typ


CENTRED = [
    np.eye(3),
    np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2,
    np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2,
    np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]]) / 2,
]


def special_positions(rng, sg, hall=None):
    """Complete orbits of rational positions (symmetry might be higher than ``sg``)."""
    for _ in range(30):
        h = int(rng.choice(gen.hall_numbers(sg))) if hall is None else hall
        rots, tr, _, choice = gen.hall_ops(h)
        cell = gen.from_params(*gen.random_params(rng, sg, choice))
        pos, typ = [], []
        lattice = rng.random() < 0.25  # one atom at the origin of a lattice
        for t in range(1 if lattice else int(rng.integers(1, 4))):
            x = np.array(
                [rng.choice([0, 0, 0.5, 0.25, 1 / 3, rng.uniform()]) for _ in range(3)]
            )
            if lattice:
                x[:] = 0
            o = gen.orbit(rots, tr, x)
            pos.append(o)
            typ += [t + 1] * len(o)
        pos = np.vstack(pos)
        if len(pos) <= 130 and gen.min_distance(cell, pos) > 0.25:
            return cell, pos, np.array(typ)
    raise Skip()


def _recip_cell(rng, lo, hi, third=None):
    """Triclinic parameters from the angles of the reciprocal cell."""
    while True:
        ang = rng.uniform(lo, hi, size=3)
        if third is not None:
            ang[2] = third
        ca, cb, cg = np.cos(np.radians(ang))
        if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > 0.05:
            break
    r = gen.from_params(*rng.uniform(0.8, 1.6, size=3), *ang)
    return gen.params(2 * math.pi * np.linalg.inv(r).T)


def focus_params(rng, target, off=0.0):
    """Parameters (standard setting, unique axis b) on one side or on the border.

    ``off`` is the relative distance from the border (for those on the border).
    """
    a, b, c = rng.uniform(3, 8, size=3)
    al = rng.uniform(55, 85)
    sn, cs = math.sin(math.radians(al)), math.cos(math.radians(al))

    def mono(ua):  # unique axis ua, SC parameters b, c, alpha
        return b, ua, c, 90, 180 - al, 90

    if target == "MCLC1":
        return mono(b * sn * rng.uniform(0.5, 0.97))
    if target == "MCLC2":
        return mono(b * sn * (1 + off))
    if target in ("MCLC3", "MCLC4", "MCLC5"):
        # border between MCLC3 and MCLC5: b cos / c + b^2 sin^2 / a^2 = 1
        b = c * rng.uniform(0.3, 0.95 / cs if cs > 0.6 else 1.4)
        if b * cs / c > 0.95:
            b = 0.9 * c / cs
        lim = b * sn / math.sqrt(1 - b * cs / c)
        if target == "MCLC4":
            return b, lim * (1 + off), c, 90, 180 - al, 90
        if target == "MCLC3":
            return b, lim * rng.uniform(1.03, 1.6), c, 90, 180 - al, 90
        low = b * sn + (lim - b * sn) * rng.uniform(0.1, 0.9)
        return b, low, c, 90, 180 - al, 90
    if target.startswith("oF") or target.startswith("ORCF"):
        b, c = sorted((b, c))
        lim = 1 / math.sqrt(1 / b**2 + 1 / c**2)
        if target == "ORCF3":
            v = [lim * (1 + off), b, c]
        elif target in ("ORCF1", "oF1"):
            v = [lim * rng.uniform(0.6, 0.97), b, c]
        else:
            v = [rng.uniform(lim * 1.02, c * 1.3), b, c]
        if target == "ORCF1" or rng.random() < 0.5:
            v = list(rng.permutation(v))
        if target == "oF2":
            v = [v[1], v[2], min(v)] if rng.random() < 0.5 else sorted(v)[::-1]
            v[2] = rng.uniform(0.6, 0.97) / math.sqrt(1 / v[0] ** 2 + 1 / v[1] ** 2)
        return (*[float(x) for x in v], 90, 90, 90)
    if target[:2] in ("oI", "oC", "oA"):
        v = sorted((a, b, c))
        if target == "oI1":
            v = [v[0], v[1], v[2]] if rng.random() < 0.5 else [v[1], v[0], v[2]]
        if target == "oI2":
            v = [v[2], v[1], v[0]] if rng.random() < 0.5 else [v[2], v[0], v[1]]
        if target == "oI3":
            v = [v[0], v[2], v[1]] if rng.random() < 0.5 else [v[1], v[2], v[0]]
        if target in ("oC1", "oC2") and rng.random() < 0.7:
            v = sorted(v[:2], reverse=target == "oC2") + [v[2]]
        elif target[1] in "CA":
            v = list(rng.permutation(v))
        return (*[float(x) for x in v], 90, 90, 90)
    if target == "tI":
        return a, a, a * (1 + off), 90, 90, 90
    if target == "hR":
        return a, a, a * math.sqrt(1.5) * (1 + off), 90, 90, 120
    if target == "RHL":
        return a, a, a * math.sqrt(6) * (1 + off), 90, 90, 120
    if target == "equal":
        v = [a, a * (1 + off), rng.uniform(0.7, 1.6) * a]
        return (*[float(x) for x in rng.permutation(v)], 90, 90, 90)
    if target == "mP":
        return a, b, a * (1 + off), 90, float(180 - al), 90
    return {
        "aP2": lambda: _recip_cell(rng, 90.5, 112),
        "TRI1a": lambda: _recip_cell(rng, 90.5, 112),
        "aP3": lambda: _recip_cell(rng, 62, 89.5),
        "TRI1b": lambda: _recip_cell(rng, 62, 89.5),
        "TRI2a": lambda: _recip_cell(rng, 90.5, 115, 90.0 + 57.3 * off),
        "TRI2b": lambda: _recip_cell(rng, 60, 89.5, 90.0 + 57.3 * off),
    }[target]()


FOCUS = {
    "mC": ["MCLC1", "MCLC2", "MCLC3", "MCLC4", "MCLC5"],
    "oF": ["ORCF1", "ORCF2", "ORCF3", "oF1", "oF2", "oF3"],
    "oI": ["oI1", "oI2", "oI3"],
    "oC": ["oC1", "oC2"],
    "oA": ["oA1", "oA2"],
    "aP": ["aP2", "aP3", "TRI1a", "TRI1b", "TRI2a", "TRI2b", "TRI2b", "TRI2b"],
}


def focus_specs(rep):
    """Specifications of crystals that reach each variation of the centred lattices."""
    from vlib import published

    for L, targets in FOCUS.items():
        sgs = [s for s in range(1, 231) if published.lattice_type(s) == L]
        for i, t in enumerate(targets):
            pool = dict(oF2=[42, 43], oI2=[46], oI3=[44, 45, 46, 72, 74], oC2=[36, 63, 64]).get(t, sgs)
            yield dict(sg=pool[(i + rep) % len(pool)], kind=f"focus:{t}", rep=rep)


def near_specs(rep):
    """Specifications of crystals within or close to the tolerance from the borders of SC."""
    for i, (L, t) in enumerate(
        (("mC", "MCLC2"), ("mC", "MCLC4"), ("oF", "ORCF3"), ("aP", "TRI2a"), ("aP", "TRI2b"))
    ):
        from vlib import published

        sgs = [s for s in range(1, 231) if published.lattice_type(s) == L]
        yield dict(sg=sgs[(i + rep) % len(sgs)], kind=f"near:{t}", rep=rep)


EDGES = (
    ("tI", "tI"), ("hR", "hR"), ("hR", "RHL"), ("oI", "equal"), ("oC", "equal"), ("oA", "equal"),
    ("oP", "equal"), ("oF", "equal"), ("mP", "mP"), ("mC", "MCLC2"), ("mC", "MCLC4"),
    ("oF", "ORCF3"), ("aP", "TRI2a"), ("aP", "TRI2b"),
)  # fmt: skip


def edge_specs(rep):
    """Specifications of crystals close to the borders, outside of their tolerances."""
    from vlib import published

    for i, (L, t) in enumerate(EDGES):
        sgs = [s for s in range(1, 231) if published.lattice_type(s) == L]
        yield dict(sg=sgs[(i + 3 * rep) % len(sgs)], kind=f"edge:{t}", rep=rep)


def make(mon, sg, kind):
    """Crystal of the space group ``sg`` described in the way given by ``kind``."""
    rng = mon.rng
    sg = int(sg)
    target = kind.partition(":")[2]
    if target:
        for _ in range(8):
            off = 0.0
            if kind.startswith("near:"):
                off = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-7.5, -3.5))
            if kind.startswith("edge:"):
                off = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-4.3, -2))
            prm = focus_params(rng, target, off)
            c = gen.crystal(rng, sg, hall=gen.hall_numbers(sg)[0], prm=prm)
            if c is not None:
                break
    elif kind == "degenerate":
        _, prm = degenerate_params(rng, sg)
        c = gen.crystal(rng, sg, hall=gen.hall_numbers(sg)[0], prm=prm)
    elif kind == "strained":
        c = strained(rng, sg)
    elif kind == "special":
        c = special_positions(rng, sg)
    else:
        c = gen.crystal(rng, sg, max_atoms=200)
    if c is None:
        raise Skip()
    cell, pos, typ = c
    base = c
    info = {}
    tol = 1e-4
    symprec = 1e-5
    sg_known = kind != "special"
    supercell = 1
    moved = ("scrambled", "noise", "rough", "special", "left", "strained") + (
        (kind,) if target and rng.random() < 0.8 else ()
    )
    if kind in moved and len(pos) < 60:
        supercell = int(rng.choice([1, 1, 2, 3]))
    if kind == "degenerate" and rng.random() < 0.5:
        cell, pos, typ, info = gen.scramble(
            rng, cell, pos, typ, rotate=rng.random() < 0.5
        )
    if kind in moved:
        cell, pos, typ, info = gen.scramble(
            rng,
            cell,
            pos,
            typ,
            supercell=supercell,
            shift=(kind != "special") and rng.random() < 0.7,
            rotate=rng.random() < 0.8,
            unimod=int(rng.integers(0, 4)),
        )
    if kind in ("scrambled", "strained"):
        s = float(rng.choice([1.0, 1.0, 0.6, 3.0, 12.0, 40.0]))
        cell = cell * s
        tol *= max(1.0, s)
        base = (base[0] * s, base[1], base[2])
    if kind == "left":
        cell = -cell
        pos = -pos
    if kind == "noise":
        noise = float(10 ** rng.uniform(-9, -7))
        pos = pos + rng.normal(size=pos.shape) * noise
        cell = cell + rng.normal(size=(3, 3)) * noise
        tol = 1e-3
        d = spglib.get_symmetry_dataset(
            (cell, pos, [int(t) for t in typ]), symprec=symprec
        )
        if d is None or d.number != sg:
            raise Skip()  # too much for spglib with this symprec
    if kind == "rough":
        # measured or printed with a few digits: cell and each atom are off
        noise = float(10 ** rng.uniform(-5.3, -3.5))
        symprec = 30 * noise
        pos = pos + rng.uniform(-1, 1, size=pos.shape) * noise @ np.linalg.inv(cell)
        cell = cell + rng.uniform(-1, 1, size=(3, 3)) * noise
        tol = max(tol, 100 * noise)
        d = spglib.get_symmetry_dataset(
            (cell, pos, [int(t) for t in typ]), symprec=symprec
        )
        if d is None or d.number != sg:
            raise Skip()
    if kind == "special":
        noise = float(10 ** rng.uniform(-9, -4.5))
        if not np.all(pos == np.rint(pos)):
            pos = pos + rng.normal(size=pos.shape) * noise
        symprec = 1e-2
        tol = 0.03
    return Crystal(cell, pos, typ, sg, tol, symprec, kind, base, sg_known, info)


KINDS = ["plain", "scrambled", "left", "degenerate", "noise", "rough", "special"]


def decorate(rng, typ, how=None, extra=True):
    """Keys of ``atoms`` that distinguish the atoms of different type.

    Returns (dict of keys without positions, how the types are given).
    """
    typ = np.asarray(typ)
    kinds = sorted(set(typ.tolist()))
    how = how or str(rng.choice(["spglib_types", "species", "names"]))
    out = {}
    lab = list(rng.permutation(SPECIES)[: len(kinds)])
    sp = [str(lab[kinds.index(t)]) for t in typ.tolist()]
    if how == "spglib_types":
        num = rng.choice(np.arange(1, 60 if rng.random() < 0.8 else 3000), size=len(kinds), replace=False)
        out["spglib_types"] = [int(num[kinds.index(t)]) for t in typ.tolist()]
    elif how == "species":
        out["species"] = sp
    else:
        out["names"] = [f"{s}{i + 1}" for i, s in enumerate(sp)]
    if extra:
        if how != "names" and rng.random() < 0.7:
            out["names"] = [f"{s}{i + 1}" for i, s in enumerate(sp)]
        if how == "spglib_types" and rng.random() < 0.5:
            out["species"] = sp
        if rng.random() < 0.7:
            out["magmom"] = [[float(i), 0.5, -float(i)] for i in range(len(typ))]
        if rng.random() < 0.5:
            out["charge"] = np.arange(len(typ), dtype=float) * 0.25
        if rng.random() < 0.3:
            out["tag"] = tuple(f"tag-{i}" for i in range(len(typ)))
    return out, how


def atoms_of(crystal, keys, as_list=False):
    p = crystal.pos.tolist() if as_list else np.array(crystal.pos)
    return dict(positions=p, **keys)


def own_data(mon, x, atoms, share=0.3):
    """Keyword with symmetry data found by the user with other tolerances of spglib."""
    rng = mon.formal
    if x.kind == "rough":
        import wulfric

        mon.count("rough crystals")
        sd = mon.call(wulfric.get_spglib_data, x.cell, atoms, spglib_symprec=x.symprec)
        return dict(spglib_data=sd)
    if x.kind not in ("scrambled", "plain", "left", "degenerate") or rng.random() > share:
        return {}
    symprec = float(10 ** rng.uniform(-6, -3.3))
    angle = float(rng.choice([-1, 1e-3, 0.01, 0.1, 0.5]))
    if x.sg <= 2:
        angle = min(angle, 2e-4)
    # what spglib finds by itself is the same crystal with the same cells
    q = (x.cell, x.pos, [int(t) for t in x.typ])
    d = spglib.get_symmetry_dataset(q, symprec=symprec, angle_tolerance=angle)
    e = spglib.get_symmetry_dataset(q, symprec=1e-5)
    if d is None or e is None or not d.number == e.number == x.sg:
        return {}
    if not np.allclose(d.std_lattice @ d.std_rotation_matrix, e.std_lattice @ e.std_rotation_matrix, atol=1e-6):
        return {}
    import wulfric

    sd = mon.call(
        wulfric.get_spglib_data,
        x.cell,
        atoms,
        spglib_symprec=symprec,
        spglib_angle_tolerance=angle,
    )
    mon.count("symmetry data with other tolerances")
    return dict(spglib_data=sd)


def labels(atoms, how):
    """What distinguishes the atoms of different type (as an array of strings)."""
    if how == "names":
        return np.array([str(n).rstrip("0123456789") for n in atoms["names"]])
    return np.array([str(t) for t in atoms[how]])
