"""C25 - a set of atoms is accepted exactly if it is what is documented."""

import numpy as np

import wulfric
from checks.C24 import ELEMENTS
from vlib import snap

ID = "C25"
RULE = (
    "valid sets of atoms and sets with 1-2 defects of every documented kind, in random order "
    "of keys and in any container, given to the validation with and without raising and to "
    "the functions that require valid atoms; state = (set of defects, raising)"
)
ASSUMPTIONS = []
REQUIRED = {"valid accepted": 600, "defects judged": 1500, "refusals observed": 1500}
MIN_STATES = 40
V = wulfric.crystal.validate_atoms


def cases(tier, seed):
    for i in range({"quick": 10000, "thorough": 50000}[tier]):
        yield dict(i=i)


def container(rng, x):
    return [list(x), tuple(x)][int(rng.integers(2))]


DEFECTS = [
    "short",
    "long",
    "not iterable",
    "missing",
    "two coordinates",
    "flat positions",
    "four coordinates",
    "ragged",
    "name is no string",
    "species is no string",
    "species is no element",
    "type is no integer",
    "type below one",
]


def case(mon, spec):
    rng = mon.rng
    n = int(rng.integers(1, 9)) if rng.random() < 0.95 else int(rng.integers(9, 300))
    full = dict(
        names=container(rng, [f"A{i}" for i in range(n)]),
        species=container(rng, [str(x) for x in rng.choice(ELEMENTS + ["X"], size=n)]),
        positions=[
            rng.uniform(-2, 2, size=(n, 3)),
            rng.uniform(-2, 2, size=(n, 3)).tolist(),
            rng.integers(-1, 2, size=(n, 3)).tolist(),
        ][int(rng.integers(3))],
        spglib_types=container(rng, [int(x) for x in rng.integers(1, 99, size=n)]),
        magmom=rng.normal(size=(n, 3)),
        label="z" * n,
        data=[[i] * i for i in range(n)],
    )
    keys = [k for k in full if rng.random() < 0.6]
    defects = []
    if spec["i"] % 3:
        defects = [DEFECTS[spec["i"] % len(DEFECTS)]]
        if rng.random() < 0.2:
            defects.append(str(rng.choice(DEFECTS[2:])))
    required = [k for k in keys if rng.random() < 0.4]
    needs = {
        "two coordinates": "positions",
        "flat positions": "positions",
        "four coordinates": "positions",
        "ragged": "positions",
        "name is no string": "names",
        "species is no string": "species",
        "species is no element": "species",
        "type is no integer": "spglib_types",
        "type below one": "spglib_types",
    }
    for d in defects:
        if d in needs and needs[d] not in keys:
            keys.append(needs[d])
        if d in ("short", "long"):
            while len(keys) < 2:
                keys.append(f"tag{len(keys)}")
                full[keys[-1]] = list(range(n))
    rng.shuffle(keys)
    atoms = {k: full[k] for k in keys}
    at = int(rng.integers(n))
    errors = (ValueError,)
    for d in defects:
        if d == "short" or d == "long":
            k = str(rng.choice([k for k in keys]))
            v = list(atoms[k]) if not isinstance(atoms[k], str) else list(atoms[k])
            atoms[k] = v[:-1] if d == "short" else v + [v[-1]]
        elif d == "not iterable":
            k = str(rng.choice(["extra", "value"]))
            atoms[k] = [5, 1.5, None, True][int(rng.integers(4))]
            errors = (TypeError, ValueError)
        elif d == "missing":
            required = required + ["something"]
        elif d == "two coordinates":
            atoms["positions"] = [[0.0, 0.5]] * n
        elif d == "four coordinates":
            atoms["positions"] = np.zeros((n, 4))
        elif d == "flat positions":
            atoms["positions"] = [0.0] * n
        elif d == "ragged":
            if n == 1:
                atoms["positions"] = [[0.0, 0.5]]
            else:
                atoms["positions"] = [[0.0, 0, 0]] * (n - 1) + [[0.0, 0]]
        else:
            k = needs[d]
            v = list(atoms[k])
            if at >= len(v):
                v.append("")
                at = len(v) - 1
            if d == "name is no string":
                v[at] = [1, None, 2.5, ["Cr"]][int(rng.integers(4))]
            elif d == "species is no string":
                v[at] = [1, None, 2.5][int(rng.integers(3))]
            elif d == "species is no element":
                v[at] = str(rng.choice(["CR", "cr", "Cr1", "", "Zz", "Q", "A", "x"]))
            elif d == "type is no integer":
                v[at] = [1.0, "1", None, 2.5][int(rng.integers(4))]
            else:
                v[at] = int(rng.choice([0, -1, -7]))
            atoms[k] = v
    if not defects and rng.random() < 0.03:
        atoms, required = {}, []
    kw = dict(required_keys=required) if required or rng.random() < 0.5 else {}
    before = snap.freeze(atoms)
    if not defects:
        for r in (True, False):
            args = dict(kw)
            if not r or rng.random() < 0.5:
                args["raise_errors"] = r
            got = mon.call(V, atoms, **args)
            mon.expect(got is True, "valid atoms are refused", f"{keys} {kw}: {got}")
        mon.count("valid accepted")
    else:
        mon.refuses(errors, V, atoms, **kw)
        got = mon.call(V, atoms, raise_errors=False, **kw)
        mon.expect(
            got is False, f"accepted:{defects[0]}", f"{defects} of {keys}: {got}", atoms=atoms
        )
        mon.count("defects judged")
        # functions that document the requirement
        if "missing" not in defects:
            cell = np.diag([3.0, 4, 5])
            mon.refuses((ValueError, TypeError), wulfric.get_spglib_types, atoms)
            if rng.random() < 0.3:
                mon.refuses((ValueError, TypeError), wulfric.get_spglib_data, cell, atoms)
                for f in (
                    wulfric.crystal.get_conventional,
                    wulfric.crystal.get_primitive,
                    wulfric.crystal.hpkot_get_extended_bl_symbol,
                ):
                    mon.refuses((ValueError, TypeError), f, cell, atoms)
    mon.expect(before == snap.freeze(atoms), "atoms were modified", f"{keys}")
    mon.state("+".join(sorted(set(defects))) or "valid", len(keys))
    mon.sample(dict(keys=keys, defects=defects, required=required))
