"""C03 - data of atoms are carried over by the type of the atom."""

import numpy as np

import wulfric
from vlib import oracle, workload

ID = "C03"
RULE = (
    "crystals with random extra keys (any name; lists, tuples, arrays, None, false and nested values) whose values "
    "differ for atoms of the same type; non-trivial when each value of each key of an output "
    "atom was traced to the last input atom of its type; state = (function, convention, how "
    "types are given, set of keys)"
)
ASSUMPTIONS = ["names of the workload are <species><index>"]
REQUIRED = {"values traced": 20000, "outputs judged": 1500}
MIN_STATES = 60


NAMES = [
    "_private", "__dunder__", "", "cell", "Positions", "position", "Names", "spglib", "types",
    "key with spaces", "index", "0", "items", "spin.x", "species2", "ключ", "names_old",
]  # fmt: skip
VALUES = [
    None, False, True, 0, 0.0, "", "None", (), [], {}, dict(a=1), [[]], b"x", 1j, 3, -1.5,
    np.eye(2), np.zeros(0), np.float64(2.5), frozenset({1}), "positions", [None, "a"], range(3),
]  # fmt: skip


def cases(tier, seed):
    n = {"quick": 6, "thorough": 14}[tier]
    for rep in range(n):
        for kind in ("scrambled", "plain", "degenerate", "rough"):
            for sg in range(1, 195 if kind == "degenerate" else 231):
                if (sg + rep) % 2 and tier == "quick":
                    continue
                yield dict(sg=sg, kind=kind, rep=rep)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b) and not np.isscalar(a):
        # containers may be copied, but not turned into something else
        if a is None or b is None or len(np.shape(a)) == 0 or np.shape(a) != np.shape(b):
            return False
    try:
        return bool(np.all(np.asarray(a) == np.asarray(b)))
    except Exception:
        return a == b


def case(mon, spec):
    rng = mon.rng
    x = workload.make(mon, spec["sg"], spec["kind"])
    keys, how = workload.decorate(rng, x.typ)
    # values that depend on the atom, not only on the type
    n = len(x.typ)
    keys["uid"] = [f"atom {i}" for i in range(n)]
    if how == "spglib_types" and "species" in keys and rng.random() < 0.4:
        # species that disagree with the types: the types decide
        keys["species"] = [str(rng.choice(workload.SPECIES)) for _ in range(n)]
    # keys and values of any kind
    for k in rng.choice(NAMES, size=int(rng.integers(0, 4)), replace=False):
        keys[str(k)] = [VALUES[int(rng.integers(len(VALUES)))] for _ in range(n)]
        if rng.random() < 0.3:
            keys[str(k)] = tuple(keys[str(k)])
    # arrays: a vector, a matrix, a flag or a name for each atom
    for k in rng.choice(["moment", "force constants", "fixed", "tag2"], size=int(rng.integers(0, 3)), replace=False):
        keys[str(k)] = {
            "moment": rng.uniform(-3, 3, size=(n, 3)),
            "force constants": rng.integers(-9, 9, size=(n, 3, 3)),
            "fixed": rng.random((n, 3)) < 0.5,
            "tag2": np.array([f"tag {i % 5} of {i}" for i in range(n)]),
        }[str(k)]
    order = list(keys)
    rng.shuffle(order)
    at = rng.integers(0, len(order) + 1)
    atoms = {}
    for i, k in enumerate(order):
        if i == at:
            atoms["positions"] = x.pos
        atoms[k] = keys[k]
    atoms.setdefault("positions", x.pos)
    lab = workload.labels(atoms, how)
    last = {}
    for i, t in enumerate(lab.tolist()):
        last[t] = i
    own = workload.own_data(mon, x, atoms)
    types_in = mon.call(wulfric.get_spglib_types, atoms)
    type_of_label = {lab[i]: int(types_in[i]) for i in range(n)}
    mon.expect(
        len(set(type_of_label.values())) == len(last)
        and all(int(types_in[i]) == type_of_label[lab[i]] for i in range(n)),
        "types do not follow the labels",
        f"{how}: {lab.tolist()} -> {types_in}",
    )
    for conv in ("HPKOT", "SC", "spglib"):
        for f in (wulfric.crystal.get_conventional, wulfric.crystal.get_primitive):
            c, a = mon.call(f, x.cell, atoms, convention=conv, **own)
            who = f"{f.__name__}:{conv}"
            m = len(a["positions"])
            mon.expect(
                set(a) == set(atoms) | {"spglib_types"},
                f"keys:{who}",
                f"{who}: keys {sorted(a)} of the output, {sorted(atoms)} of the input",
            )
            for k in a:
                mon.expect(
                    len(a[k]) == m, f"length:{who}", f"{who}: {len(a[k])} values of {k}"
                )
            shift = oracle.find_shift(
                x.cell, x.pos, lab, c, a["positions"], workload.labels(a, how), x.tol
            )
            mon.expect(
                shift is not None,
                f"types moved:{who}",
                f"{who}: types of atoms do not follow their positions",
            )
            out_lab = workload.labels(a, how).tolist()
            for i in range(m):
                src = last[out_lab[i]]
                for k in atoms:
                    if k == "positions":
                        continue
                    mon.count("values traced")
                    if not same(a[k][i], atoms[k][src]):
                        mon.expect(
                            False,
                            f"wrong value:{who}",
                            f"{who}: atoms[{k!r}][{i}] = {a[k][i]!r}, the last atom of its "
                            f"type (#{src}) has {atoms[k][src]!r}",
                            atoms=atoms,
                            out=a,
                        )
                t = a["spglib_types"][i]
                mon.expect(
                    isinstance(t, int) and t == type_of_label[out_lab[i]],
                    f"spglib_types:{who}",
                    f"{who}: type {t!r} ({type(t).__name__}), expected "
                    f"{type_of_label[out_lab[i]]}",
                )
            mon.count("outputs judged")
            mon.state(f.__name__, conv, how, *sorted(atoms))
    mon.sample(dict(sg=x.sg, how=how, keys=sorted(atoms), n_types=len(last)))
