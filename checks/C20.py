"""C20 - example cells and crystals are examples of what they are named after."""

import math

import numpy as np

import wulfric
from vlib import gen, published, snap
from vlib.core import Skip

ID = "C20"
RULE = (
    "every example of both conventions (all names in all letter cases, with and without "
    "inversion, requested repeatedly with the results defaced in between) and random "
    "parameters of all constructors of primitive cells; symbol, variation, inversion and "
    "metric are measured; state = (constructor or example)"
)
ASSUMPTIONS = ["an example cell is a crystal with one atom"]
REQUIRED = {
    "SC examples": 200,
    "HPKOT examples": 100,
    "cells judged": 1000,
    "refusals observed": 100,
}
MIN_STATES = 80
C = wulfric.cell
SYMBOLS = list(published.HPKOT_PATHS)
VARIATIONS = list(published.SC_PATHS)
NO_EXAMPLE = ("oF2", "oI2", "oA1", "oA2")
FAMILY = dict(BCT="BCT1", ORCF="ORCF1", RHL="RHL1", MCLC="MCLC1", TRI="TRI1a")


def cases(tier, seed):
    rep = {"quick": 8, "thorough": 60}[tier]
    for r in range(rep):
        for v in VARIATIONS + list(FAMILY):
            yield dict(what="SC example", name=v, rep=r)
        yield dict(what="refused", rep=r)
        for k in CONSTRUCTORS:
            for i in range(40):
                yield dict(what="constructor", name=k, rep=r, i=i)
    for r in range({"quick": 2, "thorough": 8}[tier]):
        for s in SYMBOLS + sorted({s[:2] for s in SYMBOLS}):
            for inv in (False, True):
                yield dict(what="HPKOT example", name=s, inv=inv, rep=r)


def diag(*x):
    return np.diag(np.array(x, float))


def mono(a, b, c, al):
    al = math.radians(al)
    return np.array([[a, 0, 0], [0, b, 0], [0, c * math.cos(al), c * math.sin(al)]])


# name: (parameters, lattice type, conventional cell as published, or None)
CONSTRUCTORS = {
    "SC_CUB": ("a", "cP", lambda a: diag(a, a, a)),
    "SC_FCC": ("a", "cF", lambda a: diag(a, a, a)),
    "SC_BCC": ("a", "cI", lambda a: diag(a, a, a)),
    "SC_TET": ("ac", "tP", lambda a, c: diag(a, a, c)),
    "SC_BCT": ("ac", "tI", lambda a, c: diag(a, a, c)),
    "SC_ORC": ("abc", "oP", diag),
    "SC_ORCF": ("abc", "oF", diag),
    "SC_ORCI": ("abc", "oI", diag),
    "SC_ORCC": ("abc", "oC", diag),
    "SC_HEX": ("ac", "hP", None),
    "SC_RHL": ("ar", "hR", None),
    "SC_MCL": ("abcm", "mP", mono),
    "SC_MCLC": ("abcm", "mC", mono),
    "SC_TRI": ("abctuv", "aP", None),
}
def special(rng, value, values):
    """The value, rounded, or one of the special values."""
    if rng.random() < 0.3:
        return values[int(rng.integers(len(values)))]
    if rng.random() < 0.2:
        return int(value)
    return float(value)


KEY = dict(r="alpha", m="alpha", t="alpha", u="beta", v="gamma")


def case(mon, spec):
    rng = mon.rng
    one = dict(positions=[[0.0, 0.0, 0.0]], spglib_types=[1])
    if spec["what"] == "SC example":
        name = spec["name"]
        want = FAMILY.get(name, name)
        asked = str(rng.choice([name, name.lower(), name.upper()]))
        for _ in range(2):
            cell = mon.call(C.sc_get_example, asked)
            got = mon.call(wulfric.crystal.sc_get_variation, cell, one)
            mon.expect(
                got == want, "SC example", f"example of {asked} is {got}, expected {want}"
            )
            mon.expect(np.linalg.det(cell) > 0, "left-handed example", asked)
            mon.count("SC examples")
            snap.deface(cell)
        mon.state("example", name)
        mon.sample(dict(asked=asked, variation=got))
    elif spec["what"] == "HPKOT example":
        s, inv = spec["name"], spec["inv"]
        if inv and s in NO_EXAMPLE + ("oA",):
            mon.refuses(ValueError, wulfric.crystal.hpkot_get_example, s, with_inversion=True) if (
                s != "oA"
            ) else None
            mon.state("no example", s)
            return
        want = s if len(s) == 3 else {"aP": "aP2"}.get(s, s + "1")
        for _ in range(2):
            kw = dict(with_inversion=inv) if inv or rng.random() < 0.5 else {}
            cell, atoms = mon.call(wulfric.crystal.hpkot_get_example, s, **kw)
            sd = mon.call(wulfric.get_spglib_data, cell, atoms)
            got = mon.call(wulfric.crystal.hpkot_get_extended_bl_symbol, cell, atoms)
            mon.expect(got == want, "HPKOT example", f"example of {s} is {got}")
            mon.expect(
                published.has_inversion(int(sd.space_group_number)) == inv,
                "inversion of the example",
                f"{s}, with_inversion={inv}: space group {sd.space_group_number}",
            )
            mon.count("HPKOT examples")
            snap.deface(cell)
            snap.deface(atoms)
        mon.state("example", s, inv)
    elif spec["what"] == "refused":
        for bad in ("BCC1", "cub2", "", "mclc6", "orcf12", None, 3, "tri3a", " CUB", "oP1"):
            mon.refuses(ValueError, C.sc_get_example, bad)
        for bad in ("cp1", "cP3", "oF4", "", "aP1", "CUB", "hp2", "zz1", "mc1"):
            mon.refuses(ValueError, wulfric.crystal.hpkot_get_example, bad)
    else:
        form, L, conv = CONSTRUCTORS[spec["name"]]
        f = getattr(C, spec["name"])
        kw = {}
        for k in form:
            if k in "abc":
                kw[k] = float(rng.uniform(1, 9)) * float(rng.choice([1, 1, 1e-2, 30]))
                if k in "ac" and rng.random() < 0.2:
                    kw[k] = int(np.ceil(kw[k]))
            elif k == "r":
                kw["alpha"] = special(rng, rng.uniform(10, 119), (60.0, 90.0, 90))
            elif k == "m":
                kw["alpha"] = special(rng, rng.uniform(5, 175), (60.0, 90.0, 90, 120.0))
            else:
                while True:
                    t = np.array(
                        [special(rng, z, (90.0, 90.0, 60.0, 120)) for z in rng.uniform(20, 160, 3)]
                    )
                    if (
                        min(t.sum() - 2 * t.max(), 360 - t.sum()) > 3
                    ):  # a parallelepiped exists
                        break
                for q, v in zip("tuv", t):
                    kw[KEY[q]] = float(v)
        if "b" in form and rng.random() < 0.15:
            kw["b"] = kw[str(rng.choice(["a", "c"]))]
        names = [KEY.get(k, k) for k in form]
        rec = False
        if spec["name"] == "SC_TRI" and rng.random() < 0.6:
            rec = bool(rng.random() < 0.5)
            kw["input_reciprocal"] = rec
        if rng.random() < 0.5:
            cell = mon.call(f, *[kw[n] for n in names], **{k: kw[k] for k in kw if k not in names})
        else:
            cell = mon.call(f, **kw)
        cell = np.asarray(cell, float)
        size = np.abs(cell).max()
        mon.count("cells judged")
        mon.state(spec["name"], rec)
        mon.expect(np.linalg.det(cell) > 0, "left-handed cell", f"{spec['name']} {kw}")
        if conv is not None:
            c = conv(*[kw[n] for n in names])
            mon.close(
                cell, published.SC_MATRIX[L].T @ c, 1e-12 * size, spec["name"], f"{kw}"
            )
            return
        a = kw["a"]
        if L == "hP":
            want, flat = (a, a, kw["c"], 90, 90, 120), [cell[0, 2], cell[1, 2], cell[2, 0]]
        elif L == "hR":
            want, flat = (a, a, a) + (kw["alpha"],) * 3, [cell[0, 2], cell[1, 2], cell[2, 1]]
        else:
            want, flat = tuple(kw[n] for n in names), [cell[0, 1], cell[0, 2], cell[1, 2]]
            if rec:
                cell = 2 * math.pi * np.linalg.inv(cell).T
                flat = [cell[0, 1], cell[0, 2], cell[1, 2]]
                size = np.abs(cell).max()
        p = gen.params(cell)
        mon.close(p[:3], want[:3], 1e-9 * size, f"lengths:{spec['name']}", f"{kw}")
        mon.close(p[3:], want[3:], 1e-5, f"angles:{spec['name']}", f"{kw}")
        mon.close(flat, [0, 0, 0], 1e-9 * size, f"orientation:{spec['name']}", f"{kw}")
        if L in ("hP", "hR"):
            # a1 + a2 along x, as published
            mon.close((cell[0] + cell[1])[1], 0, 1e-9 * size, f"orientation:{spec['name']}", "")
            mon.expect((cell[0] + cell[1])[0] > 0, f"orientation:{spec['name']}", f"{kw}")
