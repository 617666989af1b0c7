"""C32 - the tables that the library offers are complete and the published ones."""

import math
import re

import numpy as np

import wulfric
import wulfric.constants as K
from checks.C31 import FUNCTIONS, SLOW, give
from vlib import gen, published, snap, tables

ID = "C32"
RULE = (
    "every entry of every table, read before and after a random workload of the library; "
    "compared with the publications, with the symmetry operations of the space groups (from the "
    "database of spglib) and with what the functions of the library do; state = (table, entry)"
)
ASSUMPTIONS = ["masses and colors are the ones of PubChem, which the source names"]
REQUIRED = {"entries judged": 1500, "space groups": 230, "workloads": 10, "tables compared": 500}
MIN_STATES = 700

GREEK = dict(GAMMA=r"\Gamma", SIGMA=r"\Sigma", DELTA=r"\Delta", LAMBDA=r"\Lambda")
TABLES = ["atoms", "groups", "matrices", "paths", "names", "lattices", "numbers", "points"]


def cases(tier, seed):
    for rep in range({"quick": 8, "thorough": 200}[tier]):
        for t in TABLES:
            yield dict(table=t, rep=rep)


def plot_name(n):
    letter, digit, prime = re.fullmatch(r"([A-Z]+?)(\d*)(_P)?", n).groups()
    tail = (f"_{digit}" if digit else "") + (r"^{\prime}" if prime else "")
    if letter in GREEK:
        return f"{GREEK[letter]}{tail}"
    return f"{letter}{tail}"


def plain(label):
    return label.replace("$", "").replace(" ", "")


def operations(sg):
    """Translations (centring) and presence of the inversion, from the operations."""
    h = gen.hall_numbers(sg)[0]
    rots, tr, _, _ = gen.hall_ops(h)
    eye = np.eye(3, dtype=int)
    shifts = [t % 1 for r, t in zip(rots, tr) if (np.array(r) == eye).all()]
    inv = any((np.array(r) == -eye).all() for r in rots)
    return np.array(shifts), inv


CENTRED = {
    "P": [],
    "A": [(0, 0.5, 0.5)],
    "C": [(0.5, 0.5, 0)],
    "I": [(0.5, 0.5, 0.5)],
    "F": [(0, 0.5, 0.5), (0.5, 0, 0.5), (0.5, 0.5, 0)],
    "R": [(2 / 3, 1 / 3, 1 / 3), (1 / 3, 2 / 3, 2 / 3)],
}


def judge(mon, table):
    def same(key, got, want):
        mon.count("entries judged")
        mon.state(table, key)
        ok = got == want
        mon.expect(ok, f"{table}:{key}", f"{table}, {key}: {got!r}, published {want!r}")

    if table == "atoms":
        same("symbols", tuple(K.ATOM_SPECIES), tuple(tables.ATOMS))
        for s, (mass, color) in tables.ATOMS.items():
            mon.expect(
                abs(K.ATOMIC_MASS[s] - mass) < 1e-6 * mass,
                f"mass:{s}",
                f"mass of {s} is {K.ATOMIC_MASS[s]}, published {mass}",
            )
            same(s, str(K.ATOM_COLORS[s]).upper(), color.upper())
        same("X", str(K.ATOM_COLORS["X"]).upper(), tables.UNKNOWN.upper())
        same("keys of masses", set(K.ATOMIC_MASS), set(tables.ATOMS))
        same("keys of colors", set(K.ATOM_COLORS), set(tables.ATOMS) | {"X"})
        # every element can be used and drawn
        for s in tables.ATOMS:
            same(f"species of {s}", mon.call(wulfric.crystal.get_atom_species, f"{s}1"), s)
    elif table == "groups":
        for sg in range(1, 231):
            shifts, inv = operations(sg)
            c = K.CENTRING_TYPE[sg]
            same(f"{sg} family", K.CRYSTAL_FAMILY[sg], published.family(sg))
            same(f"{sg} centring", c, published.centring(sg))
            same(f"{sg} inversion", bool(K.INVERSION_SYMMETRY[sg]), inv)
            want = np.array([(0, 0, 0)] + CENTRED[c], float)
            d = np.abs(want[:, None] - shifts[None])
            d = np.minimum(d, 1 - d).max(axis=2)
            if sg not in (38, 39, 40, 41, 5, 8, 9, 12, 15):  # other settings exist
                mon.expect(
                    len(want) == len(shifts) and (d.min(axis=0) < 1e-3).all(),
                    f"centring:{sg}",
                    f"{c}, translations {shifts.tolist()}",
                )
            else:
                same(f"{sg} translations", len(want), len(shifts))
            mon.count("space groups")
        for t in (K.CRYSTAL_FAMILY, K.CENTRING_TYPE, K.INVERSION_SYMMETRY):
            same("keys", sorted(t), list(range(1, 231)))
    elif table == "matrices":
        for name, got, want in (
            ("HPKOT", K.HPKOT_CONVENTIONAL_TO_PRIMITIVE, published.HPKOT_MATRIX),
            ("SC", K.SC_CONVENTIONAL_TO_PRIMITIVE, published.SC_MATRIX),
        ):
            same(f"{name} keys", set(got), set(K.BRAVAIS_LATTICES))
            for L in K.BRAVAIS_LATTICES:
                mon.close(got[L], want[L], 1e-12, f"matrix:{name}:{L}", f"{name} {L}")
                k = published.lattice_points(L, name.lower())
                mon.close(np.linalg.det(got[L]), 1 / k, 1e-12, f"determinant:{name}:{L}", L)
                mon.count("entries judged")
                mon.state(table, name, L)
    elif table == "paths":
        for name, got, want in (
            ("HPKOT", K.HPKOT_DEFAULT_K_PATHS, published.HPKOT_PATHS),
            ("SC", K.SC_DEFAULT_K_PATHS, published.SC_PATHS),
        ):
            same(f"{name} keys", set(got), set(want))
            for s in want:
                same(f"{name} {s}", got[s], want[s])
    elif table == "names":
        used = set()
        for paths in (K.HPKOT_DEFAULT_K_PATHS, K.SC_DEFAULT_K_PATHS):
            for p in paths.values():
                used |= set(re.split(r"[-|]", p))
        for n in sorted(used):
            mon.expect(n in K.HS_PLOT_NAMES, f"no name:{n}", f"{n} is in a path, but has no name")
            mon.expect(f"{n}_P" in K.HS_PLOT_NAMES or n == "GAMMA", f"no name:{n}_P", f"{n}_P")
        for n, label in K.HS_PLOT_NAMES.items():
            if not re.fullmatch(r"[A-Z]+\d*(_P)?", n):
                continue
            same(n, plain(label), plot_name(n))
            mon.expect(label.count("$") % 2 == 0, f"math:{n}", f"{n}: {label}")
    elif table == "lattices":
        same("lattices", set(K.BRAVAIS_LATTICES), {published.lattice_type(s) for s in range(1, 231)})
        same("number", len(K.BRAVAIS_LATTICES), 15)
        same("symbols", sorted(K.HPKOT_EXTENDED_BL_SYMBOLS), sorted(published.HPKOT_PATHS))
        same("variations", sorted(K.SC_BRAVAIS_LATTICE_VARIATIONS), sorted(published.SC_PATHS))
        short = dict(
            cP="CUB", cF="FCC", cI="BCC", tP="TET", tI="BCT", oP="ORC", oF="ORCF", oI="ORCI",
            oA="ORCC", oC="ORCC", hP="HEX", hR="RHL", mP="MCL", mC="MCLC", aP="TRI",
        )  # fmt: skip
        system = dict(c="cubic", t="tetragonal", o="orthorhombic", h="hexagonal", m="monoclinic",
                      a="triclinic")  # fmt: skip
        kind = dict(P="", F="face-centered ", I="body-centered ", C="c-centered ", A="c-centered ")
        for L, s in short.items():
            same(f"{L} short", K.SC_BRAVAIS_LATTICE_SHORT_NAMES[L], s)
            long = "rhombohedral" if L == "hR" else kind[L[1]] + system[L[0]]
            same(f"{L} long", K.SC_BRAVAIS_LATTICE_LONG_NAMES[L].lower(), long)
        for v in K.SC_BRAVAIS_LATTICE_VARIATIONS:
            mon.expect(
                any(v.startswith(s) for s in short.values()), f"variation:{v}", f"{v} of no lattice"
            )
    elif table == "numbers":
        mon.close(K.TORADIANS * 180, math.pi, 1e-14, "TORADIANS", "")
        mon.close(K.TODEGREES * math.pi, 180, 1e-12, "TODEGREES", "")
        mon.count("entries judged", 2)
        mon.state(table)


def everything():
    """All tables of the library as they are now."""
    return {k: snap.freeze(getattr(K, k)) for k in sorted(vars(K)) if k.isupper()}


def workload_(mon):
    """Whatever users do in between."""
    rng = mon.rng
    before = everything()
    use(mon, rng)
    after = everything()
    bad = [k for k in before if before[k] != after.get(k)]
    mon.expect(not bad and len(before) == len(after), "changed by use", f"{bad}, {len(before)}, {len(after)}")
    mon.count("tables compared", len(before))


def use(mon, rng):
    for name in rng.choice([n for n in sorted(FUNCTIONS) if n not in SLOW], size=12, replace=False):
        f, make = FUNCTIONS[str(name)]
        values, kw = make(rng)
        mon.call(f, *[give(v, "array") for v in values], **{k: give(v, "list") for k, v in kw.items()})
    for _ in range(3):
        s = str(rng.choice(["cP1", "tI2", "oF1", "hR2", "mC3", "aP3", "oC1", "hP2"]))
        cell, atoms = mon.call(wulfric.crystal.hpkot_get_example, s)
        conv = str(rng.choice(["HPKOT", "SC"]))
        mon.call(wulfric.Kpoints.from_crystal, cell, atoms, convention=conv, with_time_reversal=False)
        kp = mon.call(wulfric.Kpoints.from_crystal, cell, atoms, convention=conv)
        kp.add_hs_point("NEW", [0.1, 0.2, 0.3], "new")
        kp.path = [["GAMMA", "NEW"]]
        for n in list(kp.hs_names)[1:]:
            if n not in ("GAMMA", "NEW"):
                kp.remove_hs_point(n)
        c, a = mon.call(wulfric.crystal.get_primitive, cell, atoms, convention=conv)
        snap.deface(c)
        snap.deface(a)
        p, k = mon.call(wulfric.kpoints.get_path_and_points, cell, atoms, convention=conv,
                        with_time_reversal=False)  # fmt: skip
        snap.deface(k)
        mon.call(wulfric.PlotlyEngine().plot_atoms, cell, dict(positions=[[0, 0, 0]], names=["Fe1"]))
        mon.count("workloads")


def case(mon, spec):
    if spec["table"] == "points":
        # all tables after another workload
        workload_(mon)
        for t in TABLES[:-1]:
            judge(mon, t)
        return
    judge(mon, spec["table"])
    workload_(mon)
    judge(mon, spec["table"])
    mon.sample(dict(table=spec["table"]))
