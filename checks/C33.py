"""C33 - symmetry data belong to one crystal and are used only for it."""

import copy
import pickle

import numpy as np

import wulfric
from vlib import published, snap, workload

ID = "C33"
RULE = (
    "symmetry data of several crystals, kept over a history of changes of the given objects and "
    "of calls of every function that accepts them; each pair (crystal, data) is judged: results "
    "for data of this crystal are compared with results without data, data of any other crystal "
    "have to be refused; state = (function, way in which the data are of another crystal, space "
    "group family)"
)
ASSUMPTIONS = [
    "crystals count as different when a number differs by more than 1e-3 (relative)",
    "spglib is trusted to find the space group of a generated crystal",
]
REQUIRED = {
    "data judged": 600,
    "results with own data compared": 3000,
    "refusals judged": 4000,
    "objects changed afterwards": 300,
    "other things refused": 800,
    "unusable crystals refused": 300,
    "copies of data used": 800,
}
MIN_STATES = 200


def kpoints(cell, atoms, convention, spglib_data=None, with_time_reversal=True):
    kp = wulfric.Kpoints.from_crystal(
        cell,
        atoms,
        convention=convention,
        with_time_reversal=with_time_reversal,
        n=3,
        spglib_data=spglib_data,
    )
    return [kp.path_string, kp.labels, kp.hs_coordinates, kp.points()]


kpoints.__qualname__ = "Kpoints.from_crystal"


def functions(rng):
    conv = str(rng.choice(["HPKOT", "SC"]))
    kind = str(rng.choice(["HPKOT", "SC", "spglib"]))
    tr = bool(rng.random() < 0.5)
    return {
        "get_conventional": (wulfric.crystal.get_conventional, dict(convention=kind)),
        "get_primitive": (wulfric.crystal.get_primitive, dict(convention=kind)),
        "sc_get_variation": (wulfric.crystal.sc_get_variation, {}),
        "hpkot_get_extended_bl_symbol": (wulfric.crystal.hpkot_get_extended_bl_symbol, {}),
        "get_path_and_points": (
            wulfric.kpoints.get_path_and_points,
            dict(convention=conv, relative=bool(rng.random() < 0.5), with_time_reversal=tr),
        ),
        "Kpoints.from_crystal": (kpoints, dict(convention=conv, with_time_reversal=tr)),
    }


def cases(tier, seed):
    n = {"quick": 4, "thorough": 60}[tier]
    for rep in range(n):
        for sg in range(1, 231):
            kind = ["scrambled", "left", "plain", "special", "scrambled"][(sg + rep) % 5]
            yield dict(sg=sg, kind=kind, rep=rep)


# ---------------------------------------------------------------------- other crystals
def others(rng, cell, atoms, how):
    """(way, cell, atoms): crystals that are close to the given one."""
    n = len(atoms["positions"])
    size = np.abs(cell).max()
    i = int(rng.integers(n))

    def changed(a=None, **kw):
        out = copy.deepcopy(dict(atoms))
        out.update(kw)
        return out

    yield "scaled", cell * 1.01, changed()
    c = cell.copy()
    c[int(rng.integers(3)), int(rng.integers(3))] += size * 10 ** rng.uniform(-2, -1)
    yield "strained", c, changed()
    for name, c in (
        ("rows", cell[[1, 0, 2]]),
        ("transposed", cell.T.copy()),
        ("inverted", -cell),
        ("mirrored", cell * [1, 1, -1]),
    ):
        if np.abs(c - cell).max() > 1e-2 * size:
            yield name, c, changed()
    p = np.array(atoms["positions"], dtype=float)
    q = p.copy()
    q[i, int(rng.integers(3))] += rng.choice([-1, 1]) * 10 ** rng.uniform(-2, -0.7)
    yield "moved atom", cell, changed(positions=q)
    q = p.copy()
    q[i, int(rng.integers(3))] += 1
    yield "image", cell, changed(positions=q)
    yield "origin", cell, changed(positions=p + rng.uniform(0.05, 0.4, size=3))
    if n > 1:
        j = int(rng.choice([k for k in range(n) if k != i]))
        q = p.copy()
        q[[i, j]] = q[[j, i]]
        yield "order of positions", cell, changed(positions=q)
        t = list(atoms[how])
        t[i], t[j] = t[j], t[i]
        if wulfric_types(t, how) != wulfric_types(atoms[how], how):
            yield "swapped types", cell, changed(**{how: t})
        keep = [k for k in range(n) if k != i]
        yield "missing atom", cell, {k: [v[x] for x in keep] for k, v in atoms.items()}
    t = list(atoms[how])
    t[i] = dict(spglib_types=101, species="Og", names="Og1")[how]
    if wulfric_types(t, how) != wulfric_types(atoms[how], how):
        yield "other type", cell, changed(**{how: t})
    more = {k: [*v, v[i]] for k, v in atoms.items()}
    more["positions"] = np.vstack([p, [rng.uniform(0.01, 0.99, size=3)]])
    yield "additional atom", cell, more


def wulfric_types(values, how):
    """Types of the atoms, by the documented rule."""
    if how == "spglib_types":
        return [int(v) for v in values]
    if how == "names":
        values = [str(v).rstrip("0123456789") for v in values]
    order = sorted(set(values))
    return [order.index(v) + 1 for v in values]


# ----------------------------------------------------------------------------- the case
def case(mon, spec):
    rng = mon.rng
    x = workload.make(mon, spec["sg"], spec["kind"])
    if len(x.typ) > 60:
        return
    keys, how = workload.decorate(rng, x.typ)
    given_cell = np.array(x.cell)
    given = dict(positions=np.array(x.pos), **copy.deepcopy(keys))
    cell, atoms = given_cell.copy(), copy.deepcopy(given)
    # what the caller keeps is changed later
    sp = x.symprec
    kw = {} if sp == 1e-5 else dict(spglib_symprec=sp)
    if rng.random() < 0.3:
        kw = dict(spglib_symprec=sp, spglib_angle_tolerance=-1)
    sd = mon.call(wulfric.get_spglib_data, given_cell, given, **kw)
    before = snap.freeze(vars(sd))
    note = f"space group {spec['sg']}, {spec['kind']}, types by {how}"

    # what the data say
    mon.close(sd.original_cell, cell, 0, "original cell", note)
    mon.close(sd.original_positions, atoms["positions"], 0, "original positions", note)
    mon.expect(
        [int(t) for t in sd.original_types] == wulfric_types(atoms[how], how),
        "original types",
        f"types of the data are {list(sd.original_types)}. {note}",
    )
    mon.expect(
        sd.symprec == sp and sd.angle_tolerance == -1, "tolerances", f"tolerances kept. {note}"
    )
    sg = int(sd.space_group_number)
    if x.sg_known:
        mon.expect(sg == x.sg, "space group", f"{sg} is reported. {note}")
    mon.expect(
        (sd.crystal_family, sd.centring_type) == (published.family(sg), published.centring(sg)),
        "family and centring",
        f"{sd.crystal_family}{sd.centring_type} is reported for {sg}. {note}",
    )
    det = [abs(np.linalg.det(c)) for c in (sd.conventional_cell, sd.primitive_cell)]
    ratio = {"P": 1, "A": 2, "C": 2, "I": 2, "R": 3, "F": 4}[sd.centring_type]
    mon.close(det[0] / det[1], ratio, 1e-6, "volumes", f"conventional over primitive. {note}")
    mon.expect(
        len(sd.conventional_positions) == len(sd.conventional_types)
        and len(sd.primitive_positions) == len(sd.primitive_types)
        and len(sd.conventional_types) == ratio * len(sd.primitive_types),
        "number of atoms",
        f"{len(sd.conventional_types)} and {len(sd.primitive_types)} atoms. {note}",
    )
    mon.expect(
        set(int(t) for t in sd.conventional_types)
        == set(int(t) for t in sd.primitive_types)
        == set(int(t) for t in sd.original_types),
        "types",
        f"types of the cells are the given ones. {note}",
    )
    mon.count("data judged")

    # the data cannot be edited by accident
    name = str(rng.choice(sorted(vars(sd))))
    mon.refuses(AttributeError, setattr, sd, name, getattr(sd, name))
    if rng.random() < 0.3:
        mon.refuses(AttributeError, delattr, sd, name)
    # tolerances of the user are kept as given
    if rng.random() < 0.3:
        own = dict(
            spglib_symprec=float(10 ** rng.uniform(-5, -3)),
            spglib_angle_tolerance=float(rng.uniform(0.1, 2)),
        )
        other = mon.call(wulfric.get_spglib_data, cell, atoms, **own)
        mon.expect(
            (other.symprec, other.angle_tolerance) == tuple(own.values()),
            "tolerances of the user",
            f"{other.symprec}, {other.angle_tolerance} instead of {own}. {note}",
        )
    if rng.random() < 0.3:
        unusable(mon, rng, cell, atoms, how)

    # the caller changes the objects
    if rng.random() < 0.6:
        mon.count("objects changed afterwards")
        what = str(rng.choice(["cell", "positions", "types"]))
        if what == "cell":
            given_cell *= 1.05
        elif what == "positions":
            given["positions"] += 0.031
        else:
            given[how][0] = dict(spglib_types=101, species="Og", names="Og1")[how]
        mon.expect(
            snap.freeze(vars(sd)) == before,
            "data follow the objects",
            f"data changed when the caller changed {what}. {note}",
        )
        if what != "types" or len(given[how]) > 1 or how == "spglib_types":
            f, more = functions(rng)[str(rng.choice(sorted(functions(rng))))]
            refuse(mon, f, given_cell, given, sd, more, f"changed {what}", note, x)

    fs = functions(rng)
    crystals = list(others(rng, cell, atoms, how))
    for name, (f, more) in fs.items():
        c = cell.tolist() if rng.random() < 0.3 else cell.copy()
        a = copy.deepcopy(atoms)
        if rng.random() < 0.3:
            a["positions"] = a["positions"].tolist()
        if rng.random() < 0.3:
            a["free"] = [None] * len(a["positions"])
        data = sd
        if rng.random() < 0.25:  # data that were saved and read, or sent to another process
            way = int(rng.integers(3))
            data = [copy.copy, copy.deepcopy, lambda d: pickle.loads(pickle.dumps(d))][way](sd)
            mon.count("copies of data used")
        got = mon.call(f, c, a, spglib_data=data, **more)
        if sp == 1e-5 and rng.random() < 0.7:
            want = mon.call(f, c, a, **more)
        else:
            want = mon.call(
                f, c, a, spglib_data=mon.call(wulfric.get_spglib_data, c, a, **kw), **more
            )
        mon.count("results with own data compared")
        mon.expect(
            snap.equal(want, got, 1e-9),
            f"own data:{name}",
            f"{name} gives something else with data of the crystal ({more}). {note}",
            without=want,
            with_data=got,
        )
        for k in rng.permutation(len(crystals))[:3]:
            way, c2, a2 = crystals[k]
            refuse(mon, f, c2, a2, sd, more, way, note, x)
        bad = [{}, "data", vars(sd), 1, wulfric.add_sugar(dict(vars(sd))), np.eye(3)]
        mon.refuses(
            TypeError, f, cell, atoms, spglib_data=bad[int(rng.integers(len(bad)))], **more
        )
        mon.count("other things refused")
    for way, c2, a2 in crystals:
        mon.refuses(ValueError, wulfric.validate_spglib_data, c2, a2, sd)
        mon.count("refusals judged")
        mon.state("validate_spglib_data", way, published.family(sg))
    mon.expect(
        mon.call(wulfric.validate_spglib_data, cell.copy(), copy.deepcopy(atoms), sd) is None,
        "own data refused",
        note,
    )
    mon.expect(
        snap.freeze(vars(sd)) == before, "data changed", f"data changed by use. {note}"
    )
    mon.sample(dict(sg=sg, how=how, others=[c[0] for c in crystals]))


def unusable(mon, rng, cell, atoms, how):
    """Something for which no symmetry can be found is refused, not described."""
    k = int(rng.integers(len(atoms["positions"])))
    twice = dict(atoms)
    twice["positions"] = np.vstack(
        [atoms["positions"], [atoms["positions"][k] + rng.integers(-1, 2, size=3)]]
    )
    for key in ("names", "species", "spglib_types"):
        if key in atoms:
            twice[key] = list(atoms[key]) + [atoms[key][k]]
    bad = [
        cell[:2],
        cell[:, :2],
        cell[0],
        np.stack([cell, cell]),
        [["a", "b", "c"]] * 3,
        [list(cell[0]), list(cell[1]), list(cell[2][:2])],
    ][int(rng.integers(6))]
    fs = functions(rng)
    f, more = fs[str(rng.choice(sorted(fs)))]
    for g, kw in ((wulfric.get_spglib_data, {}), (f, more)):
        mon.refuses((RuntimeError, ValueError), g, cell, twice, **kw)
        mon.refuses((ValueError, TypeError), g, bad, atoms, **kw)
    mon.count("unusable crystals refused", 2)


def refuse(mon, f, cell, atoms, sd, more, way, note, x):
    name = getattr(f, "__qualname__", str(f))
    mon.refuses(ValueError, f, cell, atoms, spglib_data=sd, **more)
    mon.count("refusals judged")
    mon.state(name, way, published.family(int(sd.space_group_number)))
