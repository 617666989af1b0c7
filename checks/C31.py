"""C31 - a call is a function of the values of its arguments, and of nothing else."""

import copy
import io

import numpy as np

import wulfric
from checks.C16 import random_cell
from checks.C24 import ELEMENTS
from vlib import gen, snap

ID = "C31"
RULE = (
    "random sequences of calls of all public functions that are not documented to modify their "
    "arguments; every array-like argument is given as array (C and Fortran order, strided view, "
    "read-only), list or tuple, results are defaced by the caller, other calls and changes of "
    "the same objects come in between; arguments, default values and all results are compared; "
    "state = (function, form of the arguments)"
)
ASSUMPTIONS = [
    "forms of the arguments are the ones documented as array-like",
    "get_spglib_types is documented to return the given types themselves",
]
REQUIRED = {
    "calls judged": 16000,
    "results compared": 12000,
    "preludes": 1500,
    "defaults compared": 4000,
    "drawing calls": 2000,
}
MIN_STATES = 120
C, G, X, K = wulfric.cell, wulfric.geometry, wulfric.crystal, wulfric.kpoints


def cases(tier, seed):
    for i in range({"quick": 2400, "thorough": 40000}[tier]):
        yield dict(i=i)


# ------------------------------------------------------------------ arguments of functions
class A:
    """Values of an array-like argument."""

    def __init__(self, v):
        self.v = np.array(v, dtype=float)


FORMS = ("array", "fortran", "view", "read-only", "list", "tuple")


def give(x, form):
    if isinstance(x, A):
        v = x.v.copy()
        if form == "fortran":
            return np.asfortranarray(v)
        if form == "view":
            big = np.full(tuple(2 * s for s in v.shape), 33.0)
            w = big[tuple(slice(None, None, 2) for _ in v.shape)]
            w[...] = v
            return w
        if form == "read-only":
            v.flags.writeable = False
            return v
        if form == "list":
            return v.tolist()
        if form == "tuple":
            return tuple(tuple(r) if isinstance(r, list) else r for r in v.tolist())
        return v
    if isinstance(x, dict):
        return {k: give(v, form) for k, v in x.items()}
    return copy.deepcopy(x)


def cell(rng):
    while True:
        _, c = random_cell(rng)
        n = np.linalg.norm(c, axis=1)
        if abs(np.linalg.det(c)) > 0.05 * n.prod() and n.max() < 20 and n.min() > 0.8:
            return A(c)


def compact(rng):
    """A cell that is quick to surround with planes."""
    return A(gen.from_params(*rng.uniform(2, 4, 3), *rng.uniform(70, 100, 3)))


def vec(rng):
    return A(rng.normal(size=3) + 0.1)


def atoms(rng, *keys):
    n = int(rng.integers(1, 6))
    full = dict(
        positions=A(rng.uniform(-1, 2, size=(n, 3))),
        names=[f"{rng.choice(ELEMENTS)}{rng.integers(1, 4)}" for _ in range(n)],
        species=[str(s) for s in rng.choice(ELEMENTS, size=n)],
        spglib_types=[int(k) for k in rng.integers(1, 90, size=n)],
    )
    out = {k: full[k] for k in full if k in keys or rng.random() < 0.3}
    if rng.random() < 0.5:
        out["data"] = [[float(i)] for i in range(n)]
    return out


def without(a, key):
    a.pop(key, None)
    return a


def crystal(rng):
    """One or two different atoms in a cell."""
    n = int(rng.integers(1, 3))
    p = rng.uniform(0, 1, size=(n, 3))
    c = A(gen.from_params(*rng.uniform(3, 7, 3), *rng.uniform(65, 88, 3)))
    return c, dict(positions=A(p), spglib_types=[int(i) + 1 for i in range(n)])


def pick(rng, *x):
    return x[int(rng.integers(len(x)))]


def path(rng):
    names = ["GAMMA", "X", "M_1", "Z0", "A"]
    return [
        [str(s) for s in rng.choice(names, size=int(rng.integers(2, 5)))]
        for _ in range(int(rng.integers(1, 4)))
    ]


def convention(rng):
    return pick(rng, "HPKOT", "SC", "hpkot", "sc")


def _params(rng):
    return tuple(rng.uniform(2, 7, size=3).tolist()) + tuple(rng.uniform(70, 110, size=3).tolist())


def _with_distance(rng):
    a = atoms(rng, "positions", "names")
    n = len(a["names"])
    i, j = int(rng.integers(n)), int(rng.integers(n))
    return (cell(rng), a, i, j, A(rng.integers(-2, 3, size=3))), {}


def load(text):
    return wulfric.io.load_poscar(io.StringIO(text))


def dump(c, a, **kw):
    out = io.StringIO()
    wulfric.io.dump_poscar(c, a, out, comment="no date", **kw)
    text = out.getvalue().splitlines()
    # the last digit written depends on the rounding errors of the layout of arrays
    numbers = [[float(x) for x in line.split()] for line in text[1:5]]
    for line in text[8:]:
        numbers.append([float(x) for x in line.split()[:3]])
    return [text[0], *text[5:8], [np.array(x) for x in numbers]]


load.__qualname__ = "load_poscar"
dump.__qualname__ = "dump_poscar"


def views(k, coordinates, names, labels, p, n, more, later):
    kp = wulfric.Kpoints(k, coordinates=coordinates, names=names, labels=labels, path=p, n=n)
    if more is not None:
        kp.add_hs_point("more", more, relative=later != "absolute")
    if isinstance(later, list):
        kp.path = later
    return look(kp) + (kp.hs_table(),)


def look(kp):
    """Views of an object together with what it consists of."""
    return (
        kp.points(), kp.points(relative=True), kp.flat_points(), kp.ticks(), list(kp.labels),
        kp.path_string, kp.rcell, tuple(kp.path), kp.hs_coordinates, kp.hs_names, kp.hs_labels,
    )  # fmt: skip


def from_crystal(*args, **kwargs):
    return look(wulfric.Kpoints.from_crystal(*args, **kwargs))


views.__qualname__ = "Kpoints"
from_crystal.__qualname__ = "Kpoints.from_crystal"


def _views(rng):
    m = int(rng.integers(2, 6))
    names = [f"K{i}" for i in range(m)]
    p = [[names[0], names[1]]] + [
        [str(s) for s in rng.permutation(names)] for _ in range(int(rng.integers(0, 2)))
    ]
    return (cell(rng), A(rng.uniform(-1, 1, size=(m, 3))), names, pick(rng, None, names[::-1]),
            pick(rng, None, p, "K0-K1"), int(rng.integers(0, 5)),
            pick(rng, None, vec(rng)), pick(rng, None, "absolute", p[::-1])), {}  # fmt: skip


def _tri(rng):
    return (*rng.uniform(2, 6, 3).tolist(), *rng.uniform(75, 105, 3).tolist()), {}


POSCAR = """comment {}
{}
{}
Cr Br
1 2
Direct
0.0 0.25 0.5
0.1 {} 0.2
0.7 0.3 0.2
"""


def _poscar(rng):
    c = "\n".join(" ".join(f"{x:.6f}" for x in r) for r in cell(rng).v)
    return (POSCAR.format(rng.integers(9), f"{rng.uniform(0.5, 2):.4f}", c, rng.uniform()),), {}


FUNCTIONS = {
    "get_reciprocal": (C.get_reciprocal, lambda r: ((cell(r),), {})),
    "from_params": (C.from_params, lambda r: (_params(r), {})),
    "get_params": (C.get_params, lambda r: ((cell(r),), {})),
    "get_scalar_products": (C.get_scalar_products, lambda r: ((cell(r),), {})),
    "get_transformation_matrix": (
        C.get_transformation_matrix,
        lambda r: ((cell(r), cell(r)), {}),
    ),
    "get_niggli": (
        C.get_niggli,
        lambda r: ((cell(r),), dict(implementation=pick(r, "spglib", "wulfric"))),
    ),
    "get_lattice_points": (
        C.get_lattice_points,
        lambda r: (
            (cell(r),),
            dict(
                range=tuple(int(x) for x in r.integers(0, 3, size=3)),
                relative=pick(r, True, False),
                flat=pick(r, True, False),
            ),
        ),
    ),
    "get_lattice_points (defaults)": (C.get_lattice_points, lambda r: ((cell(r),), {})),
    "get_wigner_seitz_cell": (
        C.get_wigner_seitz_cell,
        lambda r: ((compact(r),), {}),
    ),
    "get_brillouin_zone": (
        C.get_brillouin_zone,
        lambda r: ((compact(r),), {}),
    ),
    "sc_get_example": (
        C.sc_get_example,
        lambda r: ((pick(r, "CUB", "tri1a", "MCLC3", "RHL", "ORCF2", "bct"),), {}),
    ),
    "hpkot_get_example": (
        X.hpkot_get_example,
        lambda r: ((pick(r, "cP1", "aP3", "mC2", "hR", "oF1", "tI"),), {}),
    ),
    "SC_BCT": (C.SC_BCT, lambda r: (tuple(r.uniform(2, 5, 2).tolist()), {})),
    "SC_MCLC": (C.SC_MCLC, lambda r: (tuple(r.uniform(2, 5, 3).tolist()) + (75.5,), {})),
    "SC_TRI": (C.SC_TRI, lambda r: (_tri(r)[0], dict(input_reciprocal=pick(r, True, False)))),
    "get_volume": (G.get_volume, lambda r: ((cell(r),), {})),
    "get_volume (vectors)": (G.get_volume, lambda r: ((vec(r), vec(r), vec(r)), {})),
    "get_volume (parameters)": (G.get_volume, lambda r: (_params(r), {})),
    "get_angle": (G.get_angle, lambda r: ((vec(r), vec(r)), dict(radians=pick(r, True, False)))),
    "parallelepiped_check": (G.parallelepiped_check, lambda r: (_params(r), {})),
    "get_spherical": (
        G.get_spherical,
        lambda r: (
            (vec(r),),
            dict(polar_axis=vec(r), radial_line_zero=vec(r), in_degrees=pick(r, True, False)),
        ),
    ),
    "get_spherical (defaults)": (G.get_spherical, lambda r: ((vec(r),), {})),
    "get_vector": (X.get_vector, _with_distance),
    "get_vector (relative)": (
        X.get_vector,
        lambda r: (_with_distance(r)[0], dict(return_relative=True)),
    ),
    "get_distance": (X.get_distance, _with_distance),
    "get_atom_species": (
        X.get_atom_species,
        lambda r: ((f"{r.choice(ELEMENTS)}{r.integers(9)}",), {}),
    ),
    "get_atoms_species": (X.get_atoms_species, lambda r: ((atoms(r, "names"),), {})),
    "validate_atoms": (X.validate_atoms, lambda r: ((atoms(r, "names"),), {})),
    "validate_atoms (keys)": (
        X.validate_atoms,
        lambda r: ((atoms(r, "names", "positions"), ["names", "positions"]), {}),
    ),
    "get_spglib_types": (
        wulfric.get_spglib_types,
        # given types are documented to be returned themselves
        lambda r: ((without(atoms(r, pick(r, "names", "species")), "spglib_types"),), {}),
    ),
    "get_conventional": (
        X.get_conventional,
        lambda r: (crystal(r), dict(convention=convention(r))),
    ),
    "get_primitive": (X.get_primitive, lambda r: (crystal(r), dict(convention=convention(r)))),
    "hpkot_get_extended_bl_symbol": (
        X.hpkot_get_extended_bl_symbol,
        lambda r: (crystal(r), {}),
    ),
    "sc_get_variation": (X.sc_get_variation, lambda r: (crystal(r), {})),
    "get_spglib_data": (wulfric.get_spglib_data, lambda r: (crystal(r), {})),
    "get_path_and_points": (
        K.get_path_and_points,
        lambda r: (
            crystal(r),
            dict(
                convention=convention(r),
                relative=pick(r, True, False),
                with_time_reversal=pick(r, True, False),
            ),
        ),
    ),
    "get_path_as_string": (K.get_path_as_string, lambda r: ((path(r),), {})),
    "get_path_as_list": (
        K.get_path_as_list,
        lambda r: (("|".join("-".join(s) for s in path(r)),), {}),
    ),
    "load_poscar": (load, _poscar),
    "dump_poscar": (
        dump,
        lambda r: (
            (cell(r), atoms(r, "positions", "species")),
            dict(mode=pick(r, "Direct", "Cartesian"), decimals=int(r.integers(2, 12))),
        ),
    ),
    "Kpoints": (views, _views),
    "Kpoints.from_crystal": (
        from_crystal,
        lambda r: (
            crystal(r),
            dict(convention=convention(r), with_time_reversal=pick(r, True, False), n=int(r.integers(5))),
        ),
    ),
}


# almost a second each
SLOW = ("get_wigner_seitz_cell", "get_brillouin_zone")


def drawings(rng, slow):
    """(method, arguments) of the drawing engine."""
    col = pick(rng, "#123456", "red")
    sh = A(rng.uniform(-1, 1, size=3))
    p = A(rng.uniform(-2, 2, size=(4, 3)))
    at = atoms(rng, "positions", "names")
    n = len(at["names"])
    yield "plot_points", (p,), dict(colors=pick(rng, col, ["red", "blue", "#00FF00", "#010203"]))
    yield "plot_line", (vec(rng), vec(rng)), dict(color=col)
    yield "plot_vector", (vec(rng), vec(rng)), dict(vector_label="v")
    yield "plot_cell", (cell(rng),), dict(shift=sh, vector_label=pick(rng, "a", "x"))
    if slow:
        yield "plot_brillouin_zone", (compact(rng),), dict(shift=sh)
        yield "plot_wigner_seitz_cell", (compact(rng),), dict(shift=sh)
    yield (
        "plot_atoms",
        (cell(rng), at),
        dict(colors=pick(rng, "#010203", ["#010203"] * n, None), shift=sh),
    )


# ------------------------------------------------------------------------------- the case
def defaults(f):
    d = getattr(f, "__defaults__", None) or ()
    k = getattr(f, "__kwdefaults__", None) or {}
    return snap.freeze([list(d), k])


def memory(x):
    """Arrays of a value."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from memory(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from memory(v)
    elif type(x).__name__ == "SpglibData":
        yield from memory(vars(x))


def shared(a, b):
    return any(np.shares_memory(u, v) for u in memory(a) for v in memory(b))


def picture(r):
    if type(r).__name__ == "SpglibData":
        return copy.deepcopy(vars(r))
    return copy.deepcopy(r)


def one(mon, name, f, values, kw, form, first, note):
    args = [give(v, form) for v in values]
    kwargs = {k: give(v, form) for k, v in kw.items()}
    before = snap.freeze([args, kwargs])
    mon.hostility = 0.25
    total = sum(v for k, v in mon.events.items() if k.startswith("prelude:"))
    r = mon.call(f, *args, **kwargs)
    mon.count("preludes", sum(v for k, v in mon.events.items() if k.startswith("prelude:")) - total)
    mon.expect(
        snap.freeze([args, kwargs]) == before,
        f"modified arguments:{name}",
        f"{name} modified what was given to it. {note}",
    )
    mon.expect(
        not shared(r, [args, kwargs]),
        f"aliased:{name}",
        f"the result of {name} shares memory with an argument. {note}",
    )
    mon.count("calls judged")
    mon.state(name, form)
    got = picture(r)
    if first is not None:
        mon.count("results compared")
        mon.expect(
            snap.equal(first, got, 2 * 10.0 ** -kw["decimals"] if "decimals" in kw else 1e-9),
            f"not a function:{name}",
            f"{name} of the same values gave something else ({form}). {note}",
            first=first,
            second=got,
        )
    if not isinstance(r, (str, int, float, bool)):
        if type(r).__name__ == "SpglibData":
            snap.deface(vars(r))
        else:
            snap.deface(r)
    mon.expect(
        snap.freeze([args, kwargs]) == before,
        f"aliased:{name}",
        f"writing into the result of {name} changed an argument. {note}",
    )
    return got


def case(mon, spec):
    rng = mon.rng
    names = sorted(FUNCTIONS)
    mine = [names[spec["i"] % len(names)]] + [
        str(s) for s in rng.choice([n for n in names if n not in SLOW], size=3)
    ]
    held = {n: defaults(FUNCTIONS[n][0]) for n in mine}
    calls = []
    for n in mine:
        f, make = FUNCTIONS[n]
        values, kw = make(rng)
        calls.append((n, f, values, kw, [None]))
    for k in range(14):
        if k > 2 and calls[0][0] in SLOW:
            calls = calls[1:]
        n, f, values, kw, first = calls[int(rng.integers(len(calls)))]
        form = str(rng.choice(FORMS))
        got = one(mon, n, f, values, kw, form, first[0], f"{n} {jsonable(kw)}")
        if first[0] is None:
            first[0] = got
    for n in mine:
        mon.count("defaults compared")
        mon.expect(
            defaults(FUNCTIONS[n][0]) == held[n],
            f"modified defaults:{n}",
            f"default values of {n} changed",
        )
    if spec["i"] % 4 == 0:
        pe = wulfric.PlotlyEngine()
        for name, values, kw in drawings(rng, spec["i"] % 60 == 0):
            form = str(rng.choice(FORMS))
            args = [give(v, form) for v in values]
            kwargs = {k: give(v, form) for k, v in kw.items()}
            before = snap.freeze([args, kwargs])
            mon.call(getattr(pe, name), *args, **kwargs)
            mon.expect(
                snap.freeze([args, kwargs]) == before,
                f"modified arguments:{name}",
                f"{name} modified what was given to it ({form})",
            )
            mon.count("drawing calls")
            mon.state(name, form)
    mon.sample(dict(functions=mine))


def jsonable(x):
    return {k: (v.v.tolist() if isinstance(v, A) else v) for k, v in x.items()}
