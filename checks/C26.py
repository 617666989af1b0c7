"""C26 - attribute access to a dictionary is another spelling of its keys."""

import copy
import pickle

import numpy as np

import wulfric
from vlib import snap, workload
from vlib.core import Skip

ID = "C26"
RULE = (
    "random histories of reading, writing and deleting keys and attributes, adding and removing "
    "the attribute access, copying; compared with a plain dictionary after every step; and "
    "crystals given with attribute access against plain ones; state = (operation, operation)"
)
ASSUMPTIONS = ["keys that are names of methods of dict are not read as attributes"]
REQUIRED = {"states judged": 5000, "crystals compared": 60, "refusals observed": 300}
MIN_STATES = 60
KEYS = ["names", "positions", "species", "spglib_types", "a", "B2", "_x", "number", "ключ", "two words",
        "class", 5, (1, 2), None, "_y", "values", "keys", "items", "get", "copy", "__len__", ""]  # fmt: skip


def value(rng):
    """A value of any kind: new objects and the ones that are equal to nothing or to False."""
    k = int(rng.integers(12))
    return [None, 0, "", [], {}, False, float("nan"), np.zeros((2, 3)), dict(names=[1])][k] if k < 9 else object()


def cases(tier, seed):
    for i in range({"quick": 1500, "thorough": 8000}[tier]):
        yield dict(i=i)
    for sg in range(1, 231, 3 if tier == "quick" else 1):
        yield dict(sg=sg)


def judge(mon, d, model, sweet, op):
    mon.expect(isinstance(d, dict), f"no dictionary:{op}", str(type(d)))
    mon.expect(dict(d) == model and list(d) == list(model), f"content:{op}", f"{d} and {model}")
    mon.expect(len(d) == len(model), f"length:{op}", "")
    for k in KEYS:
        mon.expect((k in d) == (k in model), f"contains:{op}", str(k))
        if not isinstance(k, str) or hasattr(dict, k):
            if k in model:
                mon.expect(d[k] is model[k], f"value:{op}", str(k))
            continue
        if sweet:
            mon.expect(hasattr(d, k) == (k in model), f"attribute exists:{op}", k)
            if k in model:
                mon.expect(getattr(d, k) is d[k] is model[k], f"attribute:{op}", k)
            else:
                mon.expect(d.get(k, "nothing") == getattr(d, k, "nothing") == "nothing", f"no attribute:{op}", k)
        else:
            mon.expect(not hasattr(d, k), f"attribute of a plain dictionary:{op}", k)
    if not sweet:
        mon.expect(type(d) is dict, f"type:{op}", str(type(d)))
    mon.count("states judged")


def case(mon, spec):
    rng = mon.rng
    if "sg" in spec:
        x = workload.make(mon, spec["sg"], "scrambled")
        keys, how = workload.decorate(rng, x.typ)
        atoms = workload.atoms_of(x, keys)
        sweet = mon.call(wulfric.add_sugar, atoms)
        for f in ("get_conventional", "get_primitive"):
            for conv in ("HPKOT", "SC", "spglib"):
                g = getattr(wulfric.crystal, f)
                c1, a1 = mon.call(g, x.cell, atoms, convention=conv)
                c2, a2 = mon.call(g, x.cell, sweet, convention=conv)
                mon.expect(
                    snap.equal(snap.freeze((c1, dict(a1))), snap.freeze((c2, dict(a2)))),
                    f"crystal with attribute access:{f}",
                    conv,
                )
        p1 = mon.call(wulfric.kpoints.get_path_and_points, x.cell, atoms)
        p2 = mon.call(wulfric.kpoints.get_path_and_points, x.cell, sweet)
        mon.expect(snap.equal(snap.freeze(p1), snap.freeze(p2)), "points", "")
        mon.count("crystals compared")
        return
    model = {}
    if rng.random() < 0.5:
        model = {KEYS[k]: value(rng) for k in rng.permutation(len(KEYS))[: int(rng.integers(1, 7))]}
    d = wulfric.SyntacticSugar() if not model else mon.call(wulfric.add_sugar, dict(model))
    mon.calls += 1
    sweet = True
    before = "new"
    for _ in range(15):
        op = str(
            rng.choice(
                ["set key", "set attr", "del key", "del attr", "add", "remove", "copy", "update",
                 "pickle", "refused"]
            )
        )  # fmt: skip
        k = KEYS[int(rng.integers(len(KEYS)))]
        v = value(rng)
        if op == "set key":
            d[k] = v
            model[k] = v
        elif op == "set attr":
            if not sweet or not isinstance(k, str):
                continue
            setattr(d, k, v)
            model[k] = v
        elif op == "del key":
            if k in model:
                del d[k]
                del model[k]
        elif op == "del attr":
            if sweet and k in model and isinstance(k, str):
                delattr(d, k)
                del model[k]
        elif op == "add":
            old = d
            d = mon.call(wulfric.add_sugar, d)
            sweet = True
            judge(mon, old, model, isinstance(old, wulfric.SyntacticSugar), "source of add")
        elif op == "remove":
            old = d
            d = mon.call(wulfric.remove_sugar, d)
            sweet = False
            judge(mon, old, model, isinstance(old, wulfric.SyntacticSugar), "source of remove")
        elif op == "copy":
            if sweet:
                d = copy.copy(d)
        elif op == "update":
            d.update({k: v})
            model[k] = v
        elif op == "pickle":
            e = dict(model)
            model = {q: i for i, q in enumerate(e)}
            for q in model:
                d[q] = model[q]
            d2 = pickle.loads(pickle.dumps(d))
            mon.expect(type(d2) is type(d) and d2 == d, "pickle", f"{d2}")
            d3 = copy.deepcopy(d)
            mon.expect(type(d3) is type(d) and d3 == d, "deepcopy", f"{d3}")
        else:
            for bad in (None, 3, [1], "names", (("a", 1),), [("a", 1)]):
                mon.refuses(ValueError, wulfric.add_sugar, bad)
                mon.refuses(ValueError, wulfric.remove_sugar, bad)
        judge(mon, d, model, sweet, op)
        mon.state(before, op)
        before = op
    mon.sample(dict(keys=list(model), sweet=sweet))
