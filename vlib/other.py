"""Calls of the public functions in another process, in another order, or by several threads.

``python -m vlib.other JOB OUT`` reads a job (JSON) and writes the pictures of all results
(pickle).  The calls are generated from the seed alone, so two processes with the same seed are
given the same calls, whatever else differs between them.
"""

import copy
import gc
import json
import os
import pickle
import random
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from vlib import gen, snap


def invalid(rng):
    """(name, function, arguments, keywords) of a call that is refused."""
    import wulfric as w
    from checks import C31

    c, a = C31.crystal(rng)
    n = len(a["positions"].v)
    bad = [
        ("get_conventional", w.crystal.get_conventional, (c, a), dict(convention="ABC")),
        ("get_primitive", w.crystal.get_primitive, (c, a), dict(convention="hp")),
        ("get_path_and_points", w.kpoints.get_path_and_points, (c, a), dict(convention="x")),
        ("validate_atoms", w.crystal.validate_atoms, (dict(a, names=["Cr"] * (n + 1)),), {}),
        ("validate_atoms", w.crystal.validate_atoms, (a, ["names"]), {}),
        ("get_spglib_types", w.get_spglib_types, (dict(positions=a["positions"]),), {}),
        ("get_volume", w.geometry.get_volume, (C31.vec(rng), C31.vec(rng)), {}),
        ("from_params", w.cell.from_params, (1, 1, 1, 20, 30, 170), {}),
        ("parallelepiped_check", w.geometry.parallelepiped_check, (1, 1, 1, 20, 30, 170),
         dict(raise_error=True)),
        ("get_angle", w.geometry.get_angle, (C31.A([0, 0, 0]), C31.vec(rng)), {}),
        ("sc_get_example", w.cell.sc_get_example, ("QQQ",), {}),
        ("hpkot_get_example", w.crystal.hpkot_get_example, ("zz9",), {}),
        ("get_niggli", w.cell.get_niggli, (c,), dict(implementation="other")),
        ("get_atom_species", w.crystal.get_atom_species, ("123",), {}),
        ("load_poscar", w.io.load_poscar, ("/nonexistent/file",), {}),
        ("SC_TET", w.cell.SC_TET, (2.0, 2.0), {}),
        ("get_spglib_data", w.get_spglib_data, (c, dict(a, positions=C31.A([[0.0, 0.0]]))), {}),
        ("get_conventional", w.crystal.get_conventional, (c, a), dict(spglib_data=5)),
        ("get_primitive", w.crystal.get_primitive, (c, a), dict(spglib_data=[])),
        ("get_path_and_points", w.kpoints.get_path_and_points, (c, a), dict(spglib_data="x")),
        ("sc_get_variation", w.crystal.sc_get_variation, (c, a), dict(spglib_data={})),
        ("hpkot_get_extended_bl_symbol", w.crystal.hpkot_get_extended_bl_symbol, (c, a),
         dict(spglib_data=0.5)),
        ("validate_spglib_data", other_crystal, (c, a, C31.crystal(rng)), {}),
        ("get_path_as_list", w.kpoints.get_path_as_list, (["G", "X"],), {}),
        ("get_path_as_list", w.kpoints.get_path_as_list, ("G-X|Y",), {}),
        ("get_path_as_string", w.kpoints.get_path_as_string, (7,), {}),
        ("get_path_as_string", w.kpoints.get_path_as_string, ([7, ["G", "X"]],), {}),
        ("Kpoints", w.Kpoints, (c, [[0, 0, 0], [0.5, 0, 0]]), dict(names=["A"])),
        ("Kpoints", w.Kpoints, (c, [[0, 0, 0], [0.5, 0, 0]]), dict(labels=["A", "B", "C"])),
        ("Kpoints path", kpoints_then, ("path", C31.pick(rng, "K1-K7", [["K1"]], "K1")), {}),
        ("Kpoints n", kpoints_then, ("n", C31.pick(rng, 1.5, "3", None)), {}),
        ("Kpoints add", kpoints_then, ("add", "K1"), {}),
        ("Kpoints remove", kpoints_then, ("remove", "Q"), {}),
        ("compare_with_tolerance", w.compare_with_tolerance, (1.0, "=", 2.0), {}),
        ("add_sugar", w.add_sugar, ([1, 2],), {}),
        ("remove_sugar", w.remove_sugar, (3,), {}),
        ("get_unique_names", w.crystal.get_unique_names, (dict(names=["A", "A"]), "some"), {}),
        ("shift_atoms", w.crystal.shift_atoms, (a,), dict(gp_is_relative=False)),
        ("dump_poscar", C31.dump, (c, dict(positions=a["positions"], names=["Cr"] * n)),
         dict(mode="direct")),
        ("dump_poscar", C31.dump, (c, dict(positions=a["positions"], names=["123"] * n)), {}),
        ("load_poscar", C31.load, ("c\n1 2\n1 0 0\n0 1 0\n0 0 1\nCr\n1\nDirect\n0 0 0\n",), {}),
        ("legend", legend, ("nowhere",), {}),
        ("get_niggli", w.cell.get_niggli, (C31.A([[1, 0, 0], [0, 1, 0], [0, 0, 0]]),), {}),
        ("get_niggli", w.cell.get_niggli, (c,), dict(implementation="wulfric", max_iterations=0)),
        *(("validate_atoms", w.crystal.validate_atoms, (x,), {}) for x in wrong_atoms(n)),
        *(("validate_atoms (no errors)", w.crystal.validate_atoms, (x,), dict(raise_errors=False))
          for x in wrong_atoms(n)),
        ("get_atom_species (no errors)", w.crystal.get_atom_species, ("Q1",),
         dict(raise_on_fail=False)),
        *(("SC", getattr(w.cell, k), v, {}) for k, v in (
            ("SC_RHL", (2.0, 130.0)), ("SC_TRI", (1.0, 1.0, 1.0, 20.0, 30.0, 170.0)),
            ("SC_MCL", (1.0, 2.0, 3.0, 200.0)),
        )),
    ]  # fmt: skip
    return bad[int(rng.integers(len(bad)))]


def wrong_atoms(n):
    p = [[0.0, 0.0, 0.1 * i] for i in range(n)]
    return (
        dict(positions=p, names=[1] * n),
        dict(positions=p, species=["Zz"] * n),
        dict(positions=p, species=[None] * n),
        dict(positions=p, spglib_types=[0] * n),
        dict(positions=p, spglib_types=[1.5] * n),
        dict(positions=[[0.0, 0.0]] * n),
        dict(positions=p, names=["A"] * (n + 1)),
        dict(positions=5),
    )


def other_crystal(c, a, another):
    import wulfric

    data = wulfric.get_spglib_data(another[0], another[1])
    return wulfric.validate_spglib_data(c, a, data)


def kpoints_then(what, value):
    import wulfric

    k = wulfric.Kpoints(np.eye(3), [[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0]])
    if what == "add":
        k.add_hs_point(value, [0.1, 0, 0])
    elif what == "remove":
        k.remove_hs_point(value)
    else:
        setattr(k, what, value)
    return [k.path, k.n, k.labels]


def legend(position):
    import wulfric

    pe = wulfric.PlotlyEngine()
    pe.show(legend_position=position, renderer="json")


def symmetric(rng):
    """Functions of crystals on lattices of all types."""
    import wulfric as w
    from checks import C31
    from wulfric.constants import SC_BRAVAIS_LATTICE_VARIATIONS

    c = w.cell.sc_get_example(str(rng.choice(SC_BRAVAIS_LATTICE_VARIATIONS)))
    c = C31.A(float(rng.uniform(0.7, 1.5)) * np.array(c) @ gen.random_rotation(rng).T)
    a = dict(positions=C31.A([[0.0, 0.0, 0.0]]), spglib_types=[1])
    name, f, kw = [
        ("get_conventional", w.crystal.get_conventional, dict(convention=C31.convention(rng))),
        ("get_primitive", w.crystal.get_primitive, dict(convention=C31.convention(rng))),
        ("get_path_and_points", w.kpoints.get_path_and_points,
         dict(convention=C31.convention(rng))),
        ("sc_get_variation", w.crystal.sc_get_variation, {}),
        ("hpkot_get_extended_bl_symbol", w.crystal.hpkot_get_extended_bl_symbol, {}),
        ("Kpoints.from_crystal", from_crystal, dict(convention=C31.convention(rng))),
    ][int(rng.integers(6))]  # fmt: skip
    return name, f, (c, a), kw


def labelled(rng):
    """Functions of names and species, many of them alike."""
    import wulfric as w
    from checks.C24 import ELEMENTS

    n = int(rng.integers(2, 12))
    stem = str(rng.choice(["", "Q", "site-", "some atom ", "1"]))
    kind = int(rng.integers(3))
    if kind == 0:
        names = [f"{stem}{k}{t}" for k, t in zip(rng.integers(1, 30, n), rng.choice(["", "a", "B"], n))]
    elif kind == 1:
        names = [str(s) for s in rng.choice(ELEMENTS, n)]
    else:
        names = [f"{s}{k}" for s, k in zip(rng.choice(["Cr", "CR", "cr", "C", "Qq", "q", "Q"], n),
                                           rng.integers(1, 4, n))]
    a = dict(names=names, positions=[[0.0, 0.0, 0.01 * i] for i in range(n)])
    if kind == 1:
        a["species"] = names[::-1]
    name, f, v = [
        ("get_spglib_types", w.get_spglib_types, ()),
        ("get_spglib_types", w.get_spglib_types, ()),
        ("get_unique_names", lambda a, s: [w.crystal.get_unique_names(a, s), a],
         (str(rng.choice(["all", "repeated-only"])),)),
        ("get_atoms_species", lambda a: w.crystal.get_atoms_species(a, raise_on_fail=False), ()),
    ][int(rng.integers(4))]  # fmt: skip
    return name, f, (a, *v), {}


def from_crystal(c, a, **kw):
    import wulfric

    k = wulfric.Kpoints.from_crystal(c, a, **kw)
    return [k.points(), k.ticks(), k.labels, k.path_string, k.hs_table()]


def in_place(rng):
    """A call of a function that modifies its arguments (or a copy of them)."""
    import wulfric as w
    from checks import C31

    c, a = C31.crystal(rng)
    k = int(rng.integers(5))
    if k == 0:

        def f(a):
            return w.crystal.ensure_000(a), a

        return "ensure_000", f, (a,), {}
    if k == 1:

        def f(a, s, c, relative):
            return w.crystal.shift_atoms(a, s, c, gp_is_relative=relative), a

        return "shift_atoms", f, (a, C31.vec(rng), c, C31.pick(rng, True, False)), {}
    if k == 2:

        def f(a, s):
            return w.crystal.get_unique_names(a, s), a

        a["names"] = [f"{rng.choice(['Cr', 'Br'])}" for _ in a["positions"].v]
        return "get_unique_names", f, (a, C31.pick(rng, "all", "repeated-only")), {}
    if k == 3:

        def f(a):
            return w.crystal.cure_negative(a), a

        return "cure_negative", f, (a,), {}

    def f(k, p, n, others):
        kp = w.Kpoints(k, coordinates=p, names=["A", "B", "C"], n=n)
        kp.add_hs_point("D", p[0] + 0.1, label="d")
        kp.path = "A-D|B-C-A"
        kp.n = n + 2
        out = [kp.points(), kp.flat_points(), kp.ticks()]
        kp.path = "A-D|D-C-A"
        kp.remove_hs_point("B")
        return [*out, kp.points(relative=True), kp.labels, kp.path_string]

    return "Kpoints", f, (C31.cell(rng), C31.A(rng.uniform(-1, 1, size=(3, 3))),
                          int(rng.integers(3, 9)), None), {}  # fmt: skip


def drawing(rng):
    from checks import C31

    todo = list(C31.drawings(rng, False))
    name, values, kw = todo[int(rng.integers(len(todo)))]

    def f(values, kw):
        import wulfric

        pe = wulfric.PlotlyEngine()
        getattr(pe, name)(*values, legend_group="g", **kw)
        out = []
        for t in pe.fig.data:
            out.append(
                [[np.array(v, dtype=float) for v in (t.x, t.y, t.z)], t.mode, str(t.marker.color)]
                if t.type == "scatter3d"
                else [t.type]
            )
        return out

    return name, f, (list(values), kw), {}


def files(rng):
    """Through files of the current directory."""
    import wulfric as w
    from checks import C31

    c, a = C31.cell(rng), C31.atoms(rng, "positions", "species")

    def f(c, a):
        path = f"POSCAR-{threading.get_ident()}"
        try:
            w.io.dump_poscar(c, a, path, comment="c", decimals=9)
            got = w.io.load_poscar(path)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        return [*(np.round(x, 6) for x in (got[0], got[1]["positions"])), sorted(got[1]), got[2]]

    return "poscar file", f, (c, a), {}


def neighbour(rng, call, make):
    """A call that is like another one: a little other numbers, or other options."""
    from checks import C31

    name, f, values, kw = call
    d = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1))
    kind = int(rng.integers(6))  # the last one changes nothing
    first = [True]
    R = gen.random_rotation(rng)

    def change(x):
        if isinstance(x, C31.A):
            if kind == 0:
                return C31.A(x.v * (1 + d))
            if kind == 1 and first[0] and x.v.size:
                first[0] = False
                v = x.v.copy()
                v.flat[int(rng.integers(v.size))] += d
                return C31.A(v)
            if kind == 2 and x.v.ndim == 2 and x.v.shape[0] > 1:
                return C31.A(x.v[::-1])
            if kind == 4 and x.v.shape == (3, 3):
                return C31.A(x.v @ R.T)
            return C31.A(x.v)
        if isinstance(x, float):
            return x * (1 + d) if kind == 0 else x
        if isinstance(x, dict):
            return {k: change(v) for k, v in x.items()}
        if isinstance(x, list):
            return [change(v) for v in x]
        if isinstance(x, tuple):
            return tuple(change(v) for v in x)
        return copy.deepcopy(x)

    kw = {k: change(v) for k, v in kw.items()}
    if kind == 3 and make is not None:
        kw = make(rng)[1]
    if kind == 3 and name == "Kpoints":
        values = (*values[:5], int(rng.integers(9))) if len(values) == 6 else values
    return name, f, tuple(change(list(values))), kw


def calls(seed, n, slow):
    """``n`` calls: (name, function, values, keywords)."""
    from checks import C31

    rng = np.random.default_rng(seed)
    names = sorted(set(C31.FUNCTIONS) - set(C31.SLOW))
    out = []
    for i in range(n):
        x = rng.random()
        make = None
        if out and rng.random() < 0.25:
            last, make = out[-1], C31.FUNCTIONS.get(out[-1][0], (None, None))[1]
            if last[0] not in ("poscar file", "load_poscar"):
                if len(out) > 3 and rng.random() < 0.3:
                    last = out[-int(rng.integers(1, 4))]
                out.append(neighbour(rng, last, make))
                continue
        if x < 0.14:
            out.append(invalid(rng))
        elif x < 0.22:
            out.append(in_place(rng))
        elif x < 0.28:
            out.append(drawing(rng))
        elif x < 0.32:
            out.append(files(rng))
        elif x < 0.44:
            out.append(symmetric(rng))
        elif x < 0.52:
            out.append(labelled(rng))
        else:
            name = names[(i + int(rng.integers(3))) % len(names)]
            f, make = C31.FUNCTIONS[name]
            values, kw = make(rng)
            out.append((name, f, values, kw))
    for name in C31.SLOW[: slow]:
        f, make = C31.FUNCTIONS[name]
        values, kw = make(rng)
        out.append((name, f, values, kw))
        out.append(neighbour(rng, out[-1], make))
    return out


def given(x):
    from checks import C31

    if isinstance(x, C31.A):
        return C31.give(x, "array")
    if isinstance(x, dict):
        return {k: given(v) for k, v in x.items()}
    if isinstance(x, list):
        return [given(v) for v in x]
    if isinstance(x, tuple):
        return tuple(given(v) for v in x)
    return copy.deepcopy(x)


def plain(r):
    if type(r).__name__ == "SpglibData":
        return {k: plain(v) for k, v in vars(r).items() if not k.startswith("_")}
    if isinstance(r, np.ndarray):
        return r.copy()
    if isinstance(r, (np.floating, np.integer, np.bool_)):
        return r.item()
    if isinstance(r, dict):
        return {k: plain(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [plain(v) for v in r]
    if r is None or isinstance(r, (str, int, float, bool)):
        return r
    return repr(type(r))


def run(f, args, kw, careless=False):
    try:
        r = f(*args, **kw)
        out = ["returned", plain(r)]
        if careless and not isinstance(r, (str, int, float, bool)):
            snap.deface(vars(r) if type(r).__name__ == "SpglibData" else r)
        return out
    except Exception as e:  # noqa: BLE001 - refusals are results
        # documented types of the refusal; the text may list things in any order
        return ["refused", [t.__name__ for t in type(e).__mro__ if t is not object][:2]]


class Switches:
    """Lets other threads run in the middle of functions of the library."""

    def __init__(self, seed, share):
        self.share = share
        self.seed = seed
        self.forced = 0
        self.lines = 0
        self.inside = {}
        self.overlaps = set()
        self.local = threading.local()
        import wulfric

        self.root = os.path.dirname(os.path.abspath(wulfric.__file__))

    def _rng(self):
        r = getattr(self.local, "rng", None)
        if r is None:
            r = self.local.rng = random.Random(f"{self.seed} {threading.current_thread().name}")
        return r

    def on_call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.on_line

    def on_line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            x = self._rng().random()
            if x < self.share:
                self.forced += 1
                time.sleep(0 if x < 0.7 * self.share else 3e-5)
        return self.on_line

    def enter(self, name):
        me = threading.get_ident()
        for other, running in list(self.inside.items()):
            if other != me and running:
                self.overlaps.add(tuple(sorted((name, running))))
        self.inside[me] = name

    def leave(self):
        self.inside[threading.get_ident()] = None


def threads(todo, job):
    """All calls by several threads at once, some of them with the same objects as arguments."""
    results = [[] for _ in todo]
    objects = [(given(list(v)), given(kw)) for _, _, v, kw in todo]
    own = {"ensure_000", "shift_atoms", "get_unique_names", "cure_negative"}
    queue = []
    rng = random.Random(job["order"])
    switches = Switches(job["order"], job["share"])
    # the same calls close to each other in time, so that they overlap
    for start in range(0, len(todo), 8):
        block = [i for i in range(start, min(start + 8, len(todo)))] * 3
        rng.shuffle(block)
        queue.extend(block)
    queue.reverse()
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not queue:
                    return
                i = queue.pop()
            name, f, values, kw = todo[i]
            if name in own:
                args, kwargs = given(list(values)), given(kw)
            else:
                args, kwargs = objects[i]
            switches.enter(name)
            try:
                r = run(f, args, kwargs)
            finally:
                switches.leave()
            results[i].append(r)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    threading.settrace(switches.on_call)
    try:
        ts = [threading.Thread(target=work, name=f"t{k}") for k in range(job["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    return results, dict(
        switches=switches.forced, lines=switches.lines, overlaps=sorted(switches.overlaps)
    )


def main(job, out):
    warnings.simplefilter("ignore")
    if job.get("print"):
        np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True, linewidth=20)
    if job.get("random") is not None:
        random.seed(job["random"])
        np.random.seed(job["random"] % 2**31)
    if job.get("gc"):
        gc.set_threshold(1)
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            todo = calls(job["seed"], job["n"], job["slow"])
            info = {}
            if job.get("threads"):
                results, info = threads(todo, job)
            else:
                order = list(range(len(todo)))
                if job["order"] == "reversed":
                    order.reverse()
                elif job["order"] != "given":
                    random.Random(job["order"]).shuffle(order)
                results = [[] for _ in todo]
                for i in order:
                    _, f, values, kw = todo[i]
                    results[i].append(run(f, given(list(values)), given(kw), careless=True))
        finally:
            os.chdir(here)
    info.update(
        names=[t[0] for t in todo],
        optimised=not __debug__,
        hash=hash("wulfric"),
        file=sys.modules["wulfric"].__file__,
    )
    with open(out, "wb") as f:
        pickle.dump((results, info), f)


if __name__ == "__main__":
    main(json.loads(sys.argv[1]), sys.argv[2])
