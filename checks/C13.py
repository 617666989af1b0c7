"""C13 - points, flattened coordinate, ticks and labels of a path describe the same path."""

import numpy as np

import wulfric
from vlib import gen
from vlib.kpmodel import Model

ID = "C13"
RULE = (
    "random paths (several subpaths, repeated, collinear and coincident points, long and "
    "skewed reciprocal cells, n from 0 to 20000) given in every documented way; all views of "
    "the path are compared with a reference model and with each other; state = (way, number "
    "of subpaths, n class)"
)
ASSUMPTIONS = ["default labels are the ones of the documented rules"]
REQUIRED = {"states judged": 500, "views judged": 3000, "tables judged": 3000, "judged after changes": 3000}
MIN_STATES = 40


def cases(tier, seed):
    for i in range({"quick": 4000, "thorough": 20000}[tier]):
        yield dict(i=i)


NAMES = ["GAMMA", "X", "Y", "Z", "M", "R", "L", "A0", "SIGMA0", "H2_P", "K1", "a b", "Γ", "1"]


def random_points(rng, m):
    kind = rng.integers(4)
    if kind == 0:
        return rng.uniform(-1, 1, size=(m, 3))
    if kind == 1:
        return rng.choice([0, 0.5, 0.25, 1 / 3, -0.5], size=(m, 3))
    if kind == 2:
        return np.outer(rng.uniform(-1, 1, size=m), [1, 1, 0.0])
    return rng.integers(-2, 3, size=(m, 3)).astype(float)


def random_path(rng, names, n=0):
    subs = []
    most, longest = (5, 6) if n > 200 or rng.random() < 0.95 else (40, 30)
    for _ in range(int(rng.integers(1, most))):
        subs.append([str(s) for s in rng.choice(names, size=int(rng.integers(2, longest)))])
    return subs


def table(mon, kp, model):
    """The table of points, as it is written."""
    d = int(mon.rng.integers(1, 11))
    lines = mon.call(kp.hs_table, decimals=d).split("\n")
    mon.expect(len(lines) == len(model.names) + 1, "table lines", f"{len(lines)} lines for {len(model.names)} points")
    mon.expect(
        lines[0].split() == ["Name", "rel_b1", "rel_b2", "rel_b3", "k_x", "k_y", "k_z"],
        "table header",
        lines[0],
    )
    for name, line in zip(model.names, lines[1:]):
        mon.expect(line.startswith(name), "table names", f"{line!r} for {name}")
        v = np.array([float(w) for w in line[len(name):].split()])
        want = np.concatenate([model.at(name, True), model.at(name, False)])
        mon.close(v, want, 0.51 * 10.0**-d + 1e-9, "table numbers", line)
    mon.count("tables judged")


def case(mon, spec):
    rng = mon.rng
    many = rng.random() < 0.05
    m = int(rng.integers(9, 150)) if many else int(rng.integers(2, 9))
    rcell = rng.normal(size=(3, 3)) * float(10 ** rng.uniform(-1, 1))
    while abs(np.linalg.det(rcell)) < 1e-3 * np.abs(rcell).max() ** 3:
        rcell = rng.normal(size=(3, 3))
    if rng.random() < 0.15:  # reciprocal cell of whole numbers
        rcell = (gen.random_unimodular(rng, 1) @ np.diag(rng.integers(1, 5, size=3))).astype(float)
    coords = random_points(rng, m)
    names = [str(s) for s in rng.permutation(NAMES + [f"P{i}" for i in range(140 * many)])[:m]]
    labels = [f"$lab_{i}$" for i in range(m)]
    n = int(rng.choice([0, 1, 2, 3, 7, 100, 200]))
    if rng.random() < 0.03:
        n = int(rng.choice([999, 1001, 2500, 20000])) if m < 9 else 999
    way = str(rng.choice(["all", "no labels", "no names", "bare", "string", "default path"]))
    path = random_path(rng, names, n)
    form = rng.integers(3)
    rc = rcell if form else rcell.tolist()
    if rng.random() < 0.08:  # whole numbers, as numbers that are not floats
        coords = rng.integers(-2, 3, size=(m, 3))
        mon.count("whole coordinates")
    co = coords if form == 1 else coords.tolist()
    coords = coords.astype(float)
    kw = dict(rcell=rc, coordinates=co, n=n)
    if way == "all":
        kw.update(names=names, labels=labels, path=path)
    elif way == "string":
        kw.update(names=names, labels=labels, path="|".join("-".join(s) for s in path))
    elif way == "no labels":
        kw.update(names=names, path=tuple(tuple(s) for s in path))
        labels = list(names)
    elif way == "no names":
        names = [f"K{i + 1}" for i in range(m)]
        path = random_path(rng, names, n)
        kw.update(labels=labels, path=path)
    elif way == "bare":
        names = [f"K{i + 1}" for i in range(m)]
        labels = [f"K$_{i + 1}$" for i in range(m)]
        path = [list(names)]
    else:
        kw.update(names=names, labels=labels)
        path = [list(names)]
    if rng.random() < 0.2:
        n = 100
        kw.pop("n")
    kp = mon.call(wulfric.Kpoints, **kw)
    model = Model(rcell, coords, names, labels, path, n)
    model.judge(mon, kp, way)
    table(mon, kp, model)
    # the same after changes of the object
    for _ in range(int(rng.integers(0, 3))):
        op = str(rng.choice(["path", "string", "n", "point", "copy"]))
        if op in ("path", "string"):
            model.path = random_path(rng, model.names, model.n)
            p = [list(s) for s in model.path]
            kp.path = p if op == "path" else "|".join("-".join(s) for s in p)
        elif op == "n":
            model.n = int(rng.choice([0, 1, 4, 9]))
            kp.n = model.n
        elif op == "point":
            name = f"N{len(model.names)}"
            c = rng.uniform(-1, 1, size=3)
            mon.call(kp.add_hs_point, name, c, label=f"new {name}")
            model.names.append(name)
            model.coordinates[name] = c
            model.label[name] = f"new {name}"
            model.path = model.path + [[name, model.names[0], name]]
            kp.path = [list(s) for s in model.path]
        else:
            kp = mon.call(kp.copy)
        model.judge(mon, kp, f"after {op}")
        mon.count("judged after changes")
        if rng.random() < 0.3:
            table(mon, kp, model)
    mon.state(way, len(path), n)
    mon.sample(dict(way=way, path=path, n=n, ticks=kp.ticks()))
