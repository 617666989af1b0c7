"""C24 - species, types and unique names of atoms are consistent."""

import re
import warnings

import numpy as np

import wulfric
from vlib.core import Violation

ID = "C24"
RULE = (
    "names made of an element symbol in any letter case and characters that are no letters, "
    "names without element, lists of names with repetitions and names that coincide after "
    "indexing, atoms with any combination of names/species/types; results are compared with "
    "the rules of the documentation; state = (element) and (strategy, pattern of names)"
)
ASSUMPTIONS = ["the only letters of a name with an element are the ones of its symbol"]
REQUIRED = {
    "names judged": 5000,
    "lists judged": 800,
    "types judged": 800,
    "refusals observed": 200,
}
MIN_STATES = 118
K = wulfric.crystal

ELEMENTS = """H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga
Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd
Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk
Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og""".split()
NOISE = list("0123456789_-+ .,()[]@#*/'") + ["α", "é"]
NOTHING = ["", "1", "_12", "@%^#$", "123", "x", "X1", "q", "Z3", "j_2", "A", "a1", "Qx", "-",
           "Q", "z3", "a", "J_2", "A1", " q", "q ", "QX", "01", "1.0", "q\n"]


def cases(tier, seed):
    for i in range({"quick": 8000, "thorough": 25000}[tier]):
        yield dict(i=i)


def name_of(rng, e):
    e = [e, e, e.lower(), e.upper(), e.swapcase()][int(rng.integers(5))]
    pre = "".join(rng.choice(NOISE, size=int(rng.integers(0, 3))))
    post = "".join(rng.choice(NOISE, size=int(rng.integers(0, 4))))
    return pre + e + post


def names_list(rng, m):
    k = int(rng.integers(5))
    base = [str(x) for x in rng.choice(ELEMENTS, size=3)]
    if k == 0:
        return "repeated", [str(rng.choice(base)) for _ in range(m)]
    if k == 1:
        return "indexed", [f"{rng.choice(base[:2])}{rng.integers(1, 4)}" for _ in range(m)]
    if k == 2:
        pool = ["Cr", "Cr1", "Cr11", "Cr12", "Cr2", "Cr21", "Cr111", "Cr22"]
        return "tricky", [str(rng.choice(pool)) for _ in range(m)]
    if k == 3:
        return "unique", [f"{e}{i}" for i, e in enumerate(rng.choice(ELEMENTS, size=m))]
    return "same", [base[0]] * m


def case(mon, spec):
    rng = mon.rng
    # ------------------------------------------------------------------- one name
    names, want = [], []
    share = 0.85 if spec["i"] < 118 or rng.random() < 0.7 else 0.15
    for _ in range(8):
        if rng.random() < share:
            e = str(rng.choice(ELEMENTS)) if spec["i"] >= 118 or names else ELEMENTS[spec["i"]]
            names.append(name_of(rng, e))
            want.append(e)
            mon.state(e)
        else:
            names.append(str(rng.choice(NOTHING)))
            want.append("X")
        got = mon.call(K.get_atom_species, names[-1])
        mon.expect(got == want[-1], "species", f"species of {names[-1]!r} is {got!r}, not {want[-1]}")
        if want[-1] == "X":
            mon.refuses(
                wulfric.FailedToDeduceAtomSpecies,
                K.get_atom_species,
                names[-1],
                raise_on_fail=True,
            )
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                mon.call(K.get_atom_species, names[-1])
            mon.expect(
                any(issubclass(x.category, RuntimeWarning) for x in w), "no warning", names[-1]
            )
        else:
            got = mon.call(K.get_atom_species, names[-1], raise_on_fail=True)
            mon.expect(got == want[-1], "species", f"{names[-1]!r}: {got!r}")
        mon.count("names judged")
    got = mon.call(K.get_atoms_species, dict(names=list(names)))
    mon.expect(list(got) == want, "species of atoms", f"{names}: {got}, expected {want}")
    if "X" in want:
        mon.refuses(
            wulfric.FailedToDeduceAtomSpecies,
            K.get_atoms_species,
            dict(names=names),
            raise_on_fail=True,
        )
    # ---------------------------------------------------------------------- types
    atoms = dict(names=list(names))
    how = "names"
    ident = [w if w != "X" else n for w, n in zip(want, names)]
    if rng.random() < 0.5:
        ident = [str(x) for x in rng.choice(ELEMENTS[:6] + ["X"], size=len(names))]
        atoms["species"] = list(ident)
        how = "species"
    if rng.random() < 0.3:
        ident = [int(x) for x in rng.integers(1, 9, size=len(names))]
        atoms["spglib_types"] = list(ident)
        how = "spglib_types"
    if how != "names" and rng.random() < 0.4:
        del atoms["names"]
    types = mon.call(wulfric.get_spglib_types, dict(atoms))
    mon.expect(
        len(types) == len(ident) and all(isinstance(t, int) and t > 0 for t in types),
        "types are no positive integers",
        f"{types}",
    )
    mon.expect(
        len(set(zip(types, ident))) == len(set(ident)) == len(set(types)),
        f"types of atoms:{how}",
        f"{ident} -> {types}",
    )
    if how == "spglib_types":
        mon.expect(list(types) == ident, "given types", f"{ident} -> {types}")
    mon.count("types judged")
    mon.refuses(ValueError, wulfric.get_spglib_types, dict(positions=[[0, 0, 0]]))
    # --------------------------------------------------------------- unique names
    m = int(rng.integers(1, 14)) if rng.random() < 0.95 else int(rng.integers(14, 300))
    pattern, lst = names_list(rng, m)
    for strategy in ("all", "repeated-only"):
        asked = str(rng.choice([strategy, strategy.upper(), strategy.title()]))
        kw = dict(strategy=asked) if strategy != "all" or rng.random() < 0.7 else {}
        got = mon.call(K.get_unique_names, dict(names=list(lst), tag=list(lst)), **kw)
        note = f"{strategy}: {lst} -> {got}"
        mon.expect(len(got) == len(lst), "number of names", note)
        mon.expect(len(set(got)) == len(lst), f"names are not unique:{strategy}", note)
        if len(set(lst)) == len(lst):
            mon.expect(list(got) == lst, f"unique names changed:{strategy}", note)
        else:
            for g, o in zip(got, lst):
                changed = lst.count(o) > 1 or strategy == "all"
                ok = re.fullmatch(re.escape(o) + r"[1-9][0-9]*", g) if changed else g == o
                mon.expect(bool(ok), f"form of the name:{strategy}", note)
            if strategy == "all":
                first = [f"{o}{i + 1}" for i, o in enumerate(lst)]
                if len(set(first)) == len(lst):
                    mon.expect(list(got) == first, "index in the list", note)
            else:
                seen = {}
                simple = []
                for o in lst:
                    if lst.count(o) > 1:
                        seen[o] = seen.get(o, 0) + 1
                        simple.append(f"{o}{seen[o]}")
                    else:
                        simple.append(o)
                if len(set(simple) | set(lst)) == len(set(simple)) + len(
                    set(o for o in lst if lst.count(o) > 1)
                ) and len(set(simple)) == len(lst):
                    mon.expect(list(got) == simple, "index in the group", note)
        again = mon.call(K.get_unique_names, dict(names=list(got)), **kw)
        mon.expect(list(again) == list(got), "unique names change again", note)
        mon.count("lists judged")
        mon.state(strategy, pattern, len(lst))
    if rng.random() < 0.3:
        for bad in ("some", "", "repeated", "alll"):
            mon.refuses(ValueError, K.get_unique_names, dict(names=list(lst)), bad)
        mon.refuses(ValueError, K.get_unique_names, dict(positions=[[0, 0, 0]]))
        mon.refuses(ValueError, K.get_atoms_species, dict(positions=[[0, 0, 0]]))
    mon.sample(dict(names=names, species=want, unique=got))
