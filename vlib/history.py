"""Hostile histories of calls.

Before some of the monitored calls of functions that have to be pure, another call of the same
function is made (its *prelude*): with equal arguments whose result is then overwritten by the
caller, with arguments that are close to the ones of the monitored call (a slightly scaled,
rotated or shifted crystal, other options), or with the very same objects while they hold other
values.  The monitored call is then judged by the check as usual, so anything that is
remembered and returned wrongly (a cache with a coarse key, a shared array, ...) is seen as a
wrong result of the monitored call.
"""

import copy
import warnings

import numpy as np

from vlib import gen, snap

PURE = {
    "get_conventional", "get_primitive", "get_path_and_points", "get_path_as_list",
    "get_path_as_string", "hpkot_get_extended_bl_symbol", "sc_get_variation",
    "hpkot_get_example", "sc_get_example", "get_spglib_data", "get_spglib_types",
    "get_reciprocal", "from_params", "get_params", "get_scalar_products",
    "get_transformation_matrix", "get_niggli", "get_lattice_points", "get_wigner_seitz_cell",
    "get_brillouin_zone", "get_volume", "get_angle", "parallelepiped_check", "get_spherical",
    "compare_with_tolerance", "get_vector", "get_distance", "get_atom_species",
    "get_atoms_species", "validate_atoms", "add_sugar", "remove_sugar", "Kpoints.from_crystal",
    "Kpoints.points", "Kpoints.flat_points", "Kpoints.ticks", "Kpoints.hs_table",
    "Kpoints.copy",
    "SC_CUB", "SC_FCC", "SC_BCC", "SC_TET", "SC_BCT", "SC_ORC", "SC_ORCF", "SC_ORCI", "SC_ORCC",
    "SC_HEX", "SC_RHL", "SC_MCL", "SC_MCLC", "SC_TRI",
}  # fmt: skip
SHARE = 0.12


def _matrix(x):
    if isinstance(x, np.ndarray):
        return x.shape == (3, 3) and x.dtype.kind in "fi"
    return (
        isinstance(x, (list, tuple))
        and len(x) == 3
        and all(isinstance(v, (list, tuple, np.ndarray)) and len(v) == 3 for v in x)
        and all(isinstance(e, (int, float)) and not isinstance(e, bool) for v in x for e in v)
    )


class Change:
    """A transformation of arguments, the same for all arguments of a call."""

    def __init__(self, rng):
        self.kind = str(rng.choice(["scale", "turn", "shift", "strain", "options"]))
        self.d = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1))
        self.R = gen.random_rotation(rng)
        if rng.random() < 0.5:  # a small rotation
            a = self.d
            self.R = np.array(
                [[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]]
            )
        self.rng = rng

    def cell(self, c):
        c = np.array(c, dtype=float)
        if self.kind == "scale":
            return c * (1 + self.d)
        if self.kind == "turn":
            return c @ self.R.T
        if self.kind == "strain":
            c = c.copy()
            c[int(self.rng.integers(3))] *= 1 + self.d
        return c

    def positions(self, p):
        p = np.array(p, dtype=float)
        if self.kind == "shift":
            return p + self.d
        if self.kind == "strain" and p.size:
            p = p.copy()
            p[int(self.rng.integers(len(p)))] += self.d
        return p

    def value(self, x):
        if _matrix(x):
            c = self.cell(x)
            return c if isinstance(x, np.ndarray) else c.tolist()
        if isinstance(x, dict) and "positions" in x:
            y = {k: copy.deepcopy(v) for k, v in x.items()}
            try:
                y["positions"] = self.positions(x["positions"])
            except (TypeError, ValueError):
                pass
            return type(x)(y)
        if isinstance(x, float):
            return x * (1 + self.d)
        return copy.deepcopy(x)

    def options(self, name, kw):
        if self.kind != "options":
            return kw
        kw = dict(kw)
        rng = self.rng
        if "convention" in kw or name in ("get_conventional", "get_primitive"):
            kw["convention"] = str(rng.choice(["HPKOT", "SC", "sc", "hpkot"]))
        if name in ("get_path_and_points", "Kpoints.from_crystal"):
            kw["with_time_reversal"] = bool(rng.random() < 0.3)
            if name == "get_path_and_points":
                kw["relative"] = bool(rng.random() < 0.5)
        if name == "get_spglib_data":
            kw["spglib_symprec"] = float(10 ** rng.uniform(-6, -1.5))
        if name == "get_lattice_points":
            kw["relative"] = not kw.get("relative", False)
        if name in ("get_angle",):
            kw["radians"] = not kw.get("radians", False)
        if name == "get_spherical":
            kw["in_degrees"] = not kw.get("in_degrees", True)
        if name in ("Kpoints.points", "Kpoints.flat_points", "Kpoints.ticks"):
            kw["relative"] = bool(rng.random() < 0.5)
        if name == "get_niggli":
            kw["implementation"] = str(rng.choice(["spglib", "wulfric"]))
        if rng.random() < 0.5:
            kw.pop("spglib_data", None)
        return kw


def _slots(values):
    """Mutable arguments that can hold other values for a while."""
    for v in values:
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
            if v.shape == (3, 3):
                yield "cell", v
        elif isinstance(v, list) and _matrix(v) and all(isinstance(r, list) for r in v):
            yield "cell", v
        elif isinstance(v, dict):
            p = v.get("positions")
            if isinstance(p, np.ndarray) and p.flags.writeable and p.dtype.kind == "f":
                if p.ndim == 2:
                    yield "positions", p


def _fill(slot, values):
    if isinstance(slot, np.ndarray):
        slot[...] = values
    else:
        for i in range(len(slot)):
            slot[i][:] = list(values[i])


def prelude(mon, fn, args, kwargs):
    rng = mon.hostile
    name = getattr(fn, "__qualname__", "")
    if name not in PURE or rng.random() > mon.hostility:
        return
    how = str(rng.choice(["defaced", "close", "close", "in place"]))
    change = Change(rng)
    saved = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "defaced":
                bound = getattr(fn, "__self__", None)
                r = fn(*copy.deepcopy(args), **copy.deepcopy(kwargs))
                if bound is None or not isinstance(r, type(bound)):
                    snap.deface(r)
            elif how == "close":
                a = [change.value(x) for x in args]
                k = {q: change.value(x) for q, x in kwargs.items()}
                snap.deface(fn(*a, **change.options(name, k)))
            else:
                for what, slot in _slots([*args, *kwargs.values()]):
                    old = slot.copy() if isinstance(slot, np.ndarray) else copy.deepcopy(slot)
                    saved.append((slot, old))
                    new = change.cell(old) if what == "cell" else change.positions(old)
                    _fill(slot, new)
                if not saved:
                    return
                fn(*args, **kwargs)
    except Exception:
        mon.events["preludes refused"] += 1
    finally:
        for slot, old in saved:
            _fill(slot, old)
    mon.events[f"prelude: {how}"] += 1
