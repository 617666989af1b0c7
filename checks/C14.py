"""C14 - every history of operations on a set of k-points agrees with a reference model."""

import copy
import pickle

import numpy as np

import wulfric
from checks.C13 import NAMES, random_path, random_points
from vlib import gen
from vlib.kpmodel import Model

ID = "C14"
RULE = (
    "random histories of adding and removing points, setting the path and n, copying, reading "
    "and refused operations on several live copies; every copy is compared with its model "
    "after most of the steps; state = (operation before, operation)"
)
ASSUMPTIONS = ["points are not removed while the path uses them (see KNOWN_FINDINGS.txt)"]
REQUIRED = {
    "states judged": 4000,
    "refusals observed": 500,
    "copies": 200,
    "copies by other means": 60,
    "removed": 150,
    "replaced": 200,
    "added": 400,
}
MIN_STATES = 60


def saved(x):
    return pickle.loads(pickle.dumps(x))


def cases(tier, seed):
    yield dict(i="remove")
    for i in range({"quick": 2500, "thorough": 8000}[tier]):
        yield dict(i=i)


def write(path):
    return "|".join("-".join(s) for s in path)


def case(mon, spec):
    rng = mon.rng
    if spec["i"] == "remove":
        kp = mon.call(wulfric.Kpoints, np.eye(3), coordinates=np.eye(3), names=["A", "B", "C"])
        try:
            kp.remove_hs_point("B")
        except (ValueError, KeyError):
            return
        # if the point could be removed, then the object has to stay usable
        try:
            kp.labels, kp.points(), kp.ticks(), kp.flat_points()
        except Exception as e:
            mon.expect(
                False,
                "removed-point-of-the-path",
                f"remove_hs_point of a point of the path: views raise {type(e).__name__}: {e}",
            )
        return
    many = rng.random() < 0.05
    m = int(rng.integers(9, 130)) if many else int(rng.integers(2, 6))
    rcell = rng.normal(size=(3, 3))
    while abs(np.linalg.det(rcell)) < 0.05:
        rcell = rng.normal(size=(3, 3))
    if rng.random() < 0.15:  # reciprocal cell of whole numbers
        rcell = (gen.random_unimodular(rng, 1) @ np.diag(rng.integers(1, 5, size=3))).astype(float)
    coords = random_points(rng, m)
    names = [str(s) for s in rng.permutation(NAMES + [f"P{i}" for i in range(120 * many)])[:m]]
    path = random_path(rng, names)
    kp = mon.call(wulfric.Kpoints, rcell, coords, names, None, path, 3)
    live = [(kp, Model(rcell, coords, names, names, path, 3))]
    live[0][1].judge(mon, kp, "init")
    last = "init"
    paths = []
    for step in range(14):
        i = int(rng.integers(len(live)))
        kp, mo = live[i]
        op = str(
            rng.choice(
                ["add", "add absolute", "remove", "remove unknown", "path", "path string", "n",
                 "copy", "bad path", "bad add", "bad n", "spoil", "replace", "old path"]
            )
        )  # fmt: skip
        free = [s for s in NAMES + ["N1", "N2"] if s not in mo.names]
        unused = [s for s in mo.names if not any(s in p for p in mo.path)]
        if op in ("add", "add absolute") and free:
            name = str(rng.choice(free))
            c = rng.uniform(-1, 1, size=3)
            form = rng.integers(3)
            kw = {}
            if rng.random() < 0.5:
                kw["label"] = f"lab {step}"
            rel = op == "add"
            given = c.copy() if rel else c @ rcell
            given = given.tolist() if form == 0 else tuple(given) if form == 1 else given
            if not rel or rng.random() < 0.5:
                kw["relative"] = rel
            mon.call(kp.add_hs_point, name, given, **kw)
            if isinstance(given, np.ndarray):
                given[...] = 9.0  # the caller goes on using the array
            mo.names.append(name)
            mo.coordinates[name] = c
            mo.label[name] = kw.get("label", name)
            mon.count("added")
        elif op == "remove" and unused:
            name = str(rng.choice(unused))
            mon.call(kp.remove_hs_point, name)
            mo.names.remove(name)
            del mo.coordinates[name], mo.label[name]
            mon.count("removed")
        elif op == "remove unknown":
            try:
                kp.remove_hs_point("not there")
            except (ValueError, KeyError):
                pass
        elif op == "path":
            p = random_path(rng, mo.names)
            mo.path = [list(s) for s in p]
            kp.path = p
            p[0].append("spoiled by the caller")
            p.append(["spoiled", "too"])
        elif op == "path string":
            p = random_path(rng, mo.names)
            mo.path = p
            kp.path = write(p)
        elif op == "old path":
            known = [p for p in paths if all(s in mo.names for q in p for s in q)]
            if known:
                p = known[int(rng.integers(len(known)))]
                mo.path = [list(q) for q in p]
                kp.path = [list(q) for q in p] if rng.random() < 0.5 else write(p)
        elif op == "replace" and len(mo.names) > 2:
            # a point of the path gets other coordinates, nothing is read in between
            old = [list(q) for q in mo.path]
            used = sorted({s for q in old for s in q})
            name = str(rng.choice(used))
            rest = [s for s in mo.names if s != name]
            kp.path = [rest[:2]]
            mon.call(kp.remove_hs_point, name)
            c = rng.uniform(-1, 1, size=3)
            mon.call(kp.add_hs_point, name, c.tolist(), f"new {step}")
            mo.names.remove(name)
            mo.names.append(name)
            mo.coordinates[name] = c
            mo.label[name] = f"new {step}"
            kp.path = old if rng.random() < 0.5 else write(old)
            mo.path = [list(q) for q in old]
            mon.count("replaced")
        elif op == "n":
            mo.n = int(rng.integers(0, 6))
            kp.n = mo.n
        elif op == "copy":
            way = int(rng.integers(5))
            if way < 3:
                c = mon.call(kp.copy)
            else:  # other ways to get an independent copy (saved, sent to another process)
                c = mon.call(copy.deepcopy, kp) if way == 3 else mon.call(saved, kp)
                mon.count("copies by other means")
            mon.expect(isinstance(c, wulfric.Kpoints), "copy", f"copy is {type(c)}")
            live.append((c, mo.copy()))
            mon.count("copies")
            if len(live) > 3:
                live.pop(0)
        elif op == "bad path":
            bad = [
                [[mo.names[0], "undefined"]],
                f"{mo.names[0]}-undefined",
                mo.names[0],
                [[mo.names[0]]],
                [[mo.names[0], mo.names[-1]], [mo.names[0]]],
                [[mo.names[0], mo.names[-1]], [mo.names[0], "undefined"]],
                f"{mo.names[0]}-{mo.names[-1]}|{mo.names[0]}",
            ][int(rng.integers(7))]
            mon.refuses(ValueError, setattr, kp, "path", bad)
        elif op == "bad add":
            mon.refuses(
                ValueError, kp.add_hs_point, mo.names[int(rng.integers(len(mo.names)))], [9, 9, 9], "bad"
            )
            if free:
                # Cartesian coordinates that can not be transformed: whatever is raised,
                # the point is not there
                bad = [[0.1, 0.2], [0.1, 0.2, 0.3, 0.4], ["a", "b", "c"], None][int(rng.integers(4))]
                mon.refuses(
                    Exception, kp.add_hs_point, free[0], bad, "bad", relative=False
                )
                mon.count("malformed points")
        elif op == "bad n":
            mon.refuses(ValueError, setattr, kp, "n", [1.5, "3", None][int(rng.integers(3))])
        elif op == "spoil":
            # results belong to the caller
            for r in (mon.call(kp.points), mon.call(kp.flat_points), mon.call(kp.ticks)):
                r[...] = 77
            lab = mon.call(lambda: kp.labels)
            lab.append("spoiled")
        paths.append([list(q) for q in mo.path])
        mon.state(last, op)
        last = op
        if rng.random() < 0.3 and step < 13:
            continue  # nobody looks at this state
        for k, (q, mq) in enumerate(live):
            mq.judge(mon, q, op if q is kp else f"{op} of another copy")
    # constructor refuses lists of different length
    mon.refuses(ValueError, wulfric.Kpoints, rcell, coords, names[:-1])
    mon.refuses(ValueError, wulfric.Kpoints, rcell, coords, names, names[:-1])
    mon.refuses(ValueError, wulfric.Kpoints, rcell, coords, names, None, [[names[0], "undefined"]])
    mon.sample(dict(names=mo.names, path=mo.path, n=mo.n))
