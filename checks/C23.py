"""C23 - moving atoms as a whole or by periods keeps the crystal; vectors between atoms agree."""

import numpy as np

import wulfric
from checks.C16 import random_cell
from vlib import gen

ID = "C23"
RULE = (
    "random sets of 1-12 atoms (lists and arrays, coordinates from -20 to 20, exact integers, "
    "tiny negative numbers) and sequences of operations on them; the shifts of all atoms, the "
    "final coordinates and all other data are compared with the definition of the operation; "
    "state = (operation before, operation, form)"
)
ASSUMPTIONS = []
REQUIRED = {"operations judged": 3000, "vectors judged": 2000, "refusals observed": 40}
MIN_STATES = 30
K = wulfric.crystal


def cases(tier, seed):
    for i in range({"quick": 8000, "thorough": 40000}[tier]):
        yield dict(i=i)


def coordinates(rng, n):
    k = int(rng.integers(5))
    if k == 0:
        return rng.uniform(0, 1, size=(n, 3))
    if k == 1:
        return rng.uniform(-20, 20, size=(n, 3))
    if k == 2:
        return rng.integers(-3, 4, size=(n, 3)).astype(float)
    if k == 3:
        return rng.choice([0, -1e-12, 1e-12, 1, -1, 0.5, -0.5, -1 / 3, 2.0], size=(n, 3))
    p = rng.uniform(-1, 1, size=(n, 3))
    p[:, int(rng.integers(3))] = float(rng.choice([0.0, -0.25, 1.0]))
    return p


def case(mon, spec):
    rng = mon.rng
    n = int(rng.integers(1, 13)) if rng.random() < 0.95 else int(rng.integers(13, 400))
    pos = coordinates(rng, n)
    _, cell = random_cell(rng)
    if rng.random() < 0.15:
        cell = gen.random_unimodular(rng, 2) @ np.diag(rng.integers(1, 9, size=3))
    form = str(rng.choice(["array", "list", "list of arrays"]))
    given = dict(array=pos.copy(), list=pos.tolist())
    given["list of arrays"] = [p.copy() for p in pos]
    if np.all(pos == np.rint(pos)) and rng.random() < 0.7:
        form = str(rng.choice(["whole array", "whole list", "list of whole arrays"]))
        given["whole array"] = pos.astype(int)
        given["whole list"] = pos.astype(int).tolist()
        given["list of whole arrays"] = [p.astype(int) for p in pos]
    atoms = dict(names=[f"Cr{i}" for i in range(n)], positions=given[form], tag=list(range(n)))
    if rng.random() < 0.3:
        atoms = wulfric.add_sugar(atoms)
    before = "new"
    for _ in range(int(rng.integers(1, 5))):
        old = np.array([list(map(float, p)) for p in atoms["positions"]])
        op = str(rng.choice(["shift", "shift absolute", "cure", "ensure"]))
        if op.startswith("shift"):
            gp = rng.uniform(-2, 2, size=3)
            if rng.random() < 0.15:
                gp = rng.integers(-2, 3, size=3)
            gf = [gp.copy(), gp.tolist(), tuple(gp.tolist())][int(rng.integers(3))]
            if op == "shift":
                if rng.random() < 0.2:
                    gp = np.array([0.5, 0.5, 0.5])
                    mon.call(K.shift_atoms, atoms)
                else:
                    kw = dict(cell=cell) if rng.random() < 0.2 else {}
                    mon.call(K.shift_atoms, atoms, gravity_point=gf, **kw)
            else:
                c = cell if rng.random() < 0.5 else cell.tolist()
                mon.call(
                    K.shift_atoms, atoms, gravity_point=gf, cell=c, gp_is_relative=False
                )
                gp = np.linalg.solve(cell.T, gp)
                if rng.random() < 0.2:
                    mon.refuses(
                        ValueError, K.shift_atoms, dict(atoms), gf, gp_is_relative=False
                    )
        elif op == "cure":
            mon.call(K.cure_negative, atoms)
        else:
            mon.call(K.ensure_000, atoms)
        new = np.array([list(map(float, p)) for p in atoms["positions"]])
        note = f"{op} of {old.tolist()} -> {new.tolist()}"
        mon.expect(new.shape == old.shape, f"number of atoms:{op}", note)
        mon.expect(
            atoms["names"] == [f"Cr{i}" for i in range(n)] and atoms["tag"] == list(range(n)),
            f"other data:{op}",
            note,
        )
        mon.expect(
            list(atoms) == ["names", "positions", "tag"], f"keys:{op}", f"{list(atoms)}"
        )
        d = new - old
        tol = 1e-12 * (1 + np.abs(old).max() + np.abs(new).max())
        if op != "ensure":
            mon.close(d, np.tile(d[0], (n, 1)), tol, f"not one shift:{op}", note)
        if op.startswith("shift"):
            if op == "shift absolute":
                tol *= np.linalg.cond(cell)
            mon.close(
                (new.max(axis=0) + new.min(axis=0)) / 2, gp, tol, f"centre:{op}", note
            )
        elif op == "cure":
            mon.expect(new.min() >= 0, "negative coordinate", note)
            want = np.where(old.min(axis=0) < 0, -old.min(axis=0), 0)
            mon.close(d[0], want, tol, "shift of cure_negative", note)
        else:
            mon.expect(new.min() >= 0 and new.max() <= 1, "out of the cell", note)
            mon.close(d, np.round(d), 1e-9, "not a period", note)
        mon.count("operations judged")
        mon.state(before, op, form, n == 1)
        before = op
    # vectors and distances
    pos = np.array([list(map(float, p)) for p in atoms["positions"]])
    for _ in range(2):
        i, j, k = (int(x) for x in rng.integers(0, n, size=3))
        R = [int(x) for x in rng.integers(-3, 4, size=3)]
        S = [int(x) for x in rng.integers(-3, 4, size=3)]
        Rf = [R, tuple(R), np.array(R)][int(rng.integers(3))]
        c = cell if rng.random() < 0.5 else cell.tolist()
        want = pos[j] + R - pos[i]
        size = (1 + np.abs(pos).max()) * np.abs(cell).max() * 1e-12
        mon.close(
            mon.call(K.get_vector, c, atoms, i, j, Rf, return_relative=True),
            want,
            1e-12 * (5 + np.abs(pos).max()),
            "relative vector",
            f"{i} {j} {R}",
        )
        v = np.asarray(mon.call(K.get_vector, c, atoms, i, j, R=Rf))
        mon.close(v, want @ cell, 10 * size, "vector", f"{i} {j} {R}")
        w = np.asarray(mon.call(K.get_vector, c, atoms, j, k, S))
        u = np.asarray(mon.call(K.get_vector, c, atoms, i, k, [a + b for a, b in zip(R, S)]))
        mon.close(v + w, u, 30 * size, "vectors do not add up", f"{i} {j} {k} {R} {S}")
        mon.close(
            mon.call(K.get_distance, c, atoms, atom1=i, atom2=j, R=Rf),
            np.sqrt(((want @ cell) ** 2).sum()),
            20 * size,
            "distance",
            f"{i} {j} {R}",
        )
        if not any(R):
            mon.close(mon.call(K.get_vector, c, atoms, i, j), v, size, "default R", "")
        mon.close(
            mon.call(K.get_distance, c, atoms, i, j),
            mon.call(K.get_distance, c, atoms, j, i),
            20 * size,
            "distance is not symmetric",
            f"{i} {j}",
        )
        mon.count("vectors judged")
    mon.sample(dict(last=op, positions=new[:2]))
