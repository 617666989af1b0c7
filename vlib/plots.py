"""Workload of drawing calls and the picture each of them documents.

``Expected`` is made from the arguments alone; ``Picture`` is what the traces of a figure
draw, whatever the number of traces it is spread over.
"""

import numpy as np

import wulfric
from vlib import gen, tables

NAMED = ["red", "rgb(10,20,30)", "#00FF7f", "#123456", "black", "#FFFFFF"]


class Expected:
    def __init__(self, kind):
        self.kind = kind
        self.segments = []  # (p, q)
        self.markers = []  # (point, color or None, text or None, [strings of the hover])
        self.arrows = []  # (start, end)
        self.labels = []  # (start, end, text)
        self.color = None


class Picture:
    def __init__(self, traces):
        self.segments, self.markers, self.arrows, self.labels = [], [], [], []
        self.legend = []
        self.groups = []
        self.scenes = set()
        self.coords = []
        for t in traces:
            self.scenes.add(t.scene or "scene")
            self.groups.append(t.legendgroup)
            if t.type == "cone":
                if t.showlegend:
                    self.legend.append(t.name)
                P = np.array([t.x, t.y, t.z], dtype=float).T
                U = np.array([t.u, t.v, t.w], dtype=float).T
                colors = {c for _, c in t.colorscale}
                assert t.anchor == "tip"
                for p, u in zip(P, U):
                    self.arrows.append((p, u, colors))
                    self.coords.append((p, t.scene or "scene"))
                continue
            assert t.type == "scatter3d", t.type
            if t.showlegend is not False:
                self.legend.append(t.name)
            P = np.array(
                [[np.nan if v is None else v for v in np.ravel(c)] for c in (t.x, t.y, t.z)],
                dtype=float,
            ).T
            for p in P:
                if np.all(np.isfinite(p)):
                    self.coords.append((p, t.scene or "scene"))
            mode = t.mode.split("+")
            n = len(P)
            if "lines" in mode:
                for a, b in zip(P[:-1], P[1:]):
                    if np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
                        self.segments.append((a, b, t.line.color))
            text = spread(t.text, n)
            hover = spread(t.hovertext, n)
            if "markers" in mode:
                colors = spread(t.marker.color, n)
                tcolor = spread(t.textfont.color, n)
                for i in range(n):
                    self.markers.append(
                        dict(
                            at=P[i],
                            color=colors[i],
                            text=text[i] if "text" in mode else None,
                            tcolor=tcolor[i],
                            hover=hover[i],
                            shown=t.hoverinfo,
                        )
                    )
            elif "text" in mode:
                tcolor = spread(t.textfont.color, n)
                for i in range(n):
                    self.labels.append((P[i], text[i], tcolor[i]))


def spread(x, n):
    if x is None or isinstance(x, str):
        return [x] * n
    x = list(x)
    assert len(x) == n, f"{len(x)} values for {n} points"
    return x


def group_index(points, tol):
    return [tuple(np.round(p / tol).astype(int)) for p in points]


def forms(rng, x):
    x = np.asarray(x, float)
    if np.all(x == np.round(x)) and rng.random() < 0.7:
        x = x.astype(int)
        return [x.copy(), x.tolist(), tuple(x.tolist())][int(rng.integers(3))]
    return [x.copy(), x.tolist(), tuple(map(float, x)) if x.ndim == 1 else x.tolist()][
        int(rng.integers(3))
    ]


def random_cell(rng):
    c = gen.from_params(*gen.random_params(rng, int(rng.integers(1, 231))))
    c = c @ gen.random_rotation(rng).T
    if rng.random() < 0.3:
        c = -c
    return c


KINDS = [
    "points",
    "line",
    "vector",
    "cell",
    "wigner",
    "zone",
    "kpath",
    "kpoints",
    "lattice",
    "atoms",
]
ELEM = list(tables.ATOMS)


def random_call(rng, kind, costly=True):
    """Returns (method, args, kwargs, Expected)."""
    # whole numbers are given as integers
    whole = np.round if rng.random() < 0.3 else (lambda x: x)
    e = Expected(kind)
    kw = {}
    shift = np.zeros(3)
    if kind in ("cell", "wigner", "zone", "kpath", "kpoints", "lattice", "atoms"):
        if rng.random() < 0.6:
            shift = whole(rng.uniform(-20, 20, size=3))
            kw["shift"] = forms(rng, shift)
    color = None
    if rng.random() < 0.6 and kind != "atoms":
        color = str(rng.choice(NAMED))
        if kind != "points":
            kw["color"] = color
    if kind == "points":
        n = int(rng.integers(1, 9)) if rng.random() < 0.9 else int(rng.integers(9, 400))
        p = whole(rng.uniform(-9, 9, size=(n, 3)) + rng.uniform(-30, 30, size=3))
        cols = [color] * n
        if color is not None:
            kw["colors"] = color
        elif rng.random() < 0.6:
            cols = kw["colors"] = [str(rng.choice(NAMED)) for _ in range(n)]
        e.markers = [(q, c, None, []) for q, c in zip(p, cols)]
        return "plot_points", (forms(rng, p),), kw, e
    if kind == "line":
        p, q = whole(rng.uniform(-20, 20, size=(2, 3)))
        e.segments, e.color = [(p, q)], color
        return "plot_line", (forms(rng, p), forms(rng, q)), kw, e
    if kind == "vector":
        p, q = whole(rng.uniform(-20, 20, size=(2, 3)))
        e.segments, e.arrows, e.color = [(p, q)], [(p, q)], color
        if rng.random() < 0.6:
            kw["vector_label"] = str(rng.choice(["v", "long label", "k1"]))
            e.labels = [(p, q, kw["vector_label"])]
        return "plot_vector", (forms(rng, p), forms(rng, q)), kw, e
    if kind in ("kpath", "kpoints"):
        from checks.C13 import NAMES, random_path, random_points

        m = int(rng.integers(2, 8))
        rcell = random_cell(rng)
        coords = random_points(rng, m)
        names = [str(s) for s in rng.permutation(NAMES)[:m]]
        labels = [f"L{i}" for i in range(m)]
        path = random_path(rng, names)
        kp = wulfric.Kpoints(rcell, coords, names, labels, path, int(rng.integers(2, 30)))
        at = {n: np.asarray(c) @ rcell + shift for n, c in zip(names, coords)}
        e.color = color
        if kind == "kpath":
            for sub in kp.path:
                e.segments += [(at[a], at[b]) for a, b in zip(sub[:-1], sub[1:])]
            return "plot_kpath", (kp,), kw, e
        shown = names
        if rng.random() < 0.5:
            kw["only_from_kpath"] = bool(rng.random() < 0.7)
            if kw["only_from_kpath"]:
                used = {x for sub in kp.path for x in sub}
                shown = [n for n in names if n in used]
        if rng.random() < 0.3:
            kw["scale"] = 2
        rel = dict(zip(names, coords))
        lab = dict(zip(names, labels))
        e.markers = [
            (at[n], color, n, [("Name", n), ("Label", lab[n]), ("Relative", rel[n]), ("Absolute", at[n])])
            for n in shown
        ]
        return "plot_kpoints", (kp,), kw, e
    cell = random_cell(rng)
    if whole is np.round:
        cell = np.round(rng.uniform(-4, 4, size=(3, 3))) + 7 * np.eye(3)
        if abs(np.linalg.det(cell)) < 30:
            cell = 7 * np.eye(3)
    given = forms(rng, cell)
    e.color = color
    if kind in ("cell", "wigner", "zone"):
        e.color = color
        vectors = True
        if rng.random() < 0.5:
            vectors = kw["plot_vectors"] = bool(rng.random() < 0.5)
        label = "b" if kind == "zone" else "a"
        if rng.random() < 0.4:
            label = kw["vector_label"] = str(rng.choice(["a", "c", "b_"]))
        basis = cell
        if kind == "zone":
            basis = 2 * np.pi * np.linalg.inv(cell).T
        if kind == "cell":
            for i in range(3):
                o = [j for j in range(3) if j != i]
                for a in (0, 1):
                    for b in (0, 1):
                        s = shift + a * cell[o[0]] + b * cell[o[1]]
                        e.segments.append((s, s + cell[i]))
        else:
            f = (
                wulfric.cell.get_brillouin_zone
                if kind == "zone"
                else wulfric.cell.get_wigner_seitz_cell
            )
            v, edges = f(cell)
            e.segments = [(shift + v[i], shift + v[j]) for i, j in edges]
        if vectors:
            for i in range(3):
                e.segments.append((shift, shift + basis[i]))
                e.arrows.append((shift, shift + basis[i]))
                e.labels.append((shift, shift + basis[i], f"{label}{i + 1}"))
        name = {"cell": "plot_cell", "wigner": "plot_wigner_seitz_cell", "zone": "plot_brillouin_zone"}
        return name[kind], (given,), kw, e
    if kind == "lattice":
        r = (1, 1, 1)
        if rng.random() < 0.7:
            r = tuple(int(x) for x in rng.integers(0, 4, size=3))
            if rng.random() < 0.1:
                r = tuple(int(x) for x in rng.permutation([int(rng.integers(4, 40)), 1, 0]))
            kw["range"] = r
        for i in range(-r[0], r[0] + 1):
            for j in range(-r[1], r[1] + 1):
                for k in range(-r[2], r[2] + 1):
                    e.markers.append((np.array([i, j, k]) @ cell + shift, color, None, []))
        return "plot_lattice", (given,), kw, e
    assert kind == "atoms"
    n = int(rng.integers(1, 9)) if rng.random() < 0.85 else int(rng.integers(9, 150))
    pos = whole(rng.uniform(-1, 2, size=(n, 3)))
    elem = rng.choice(ELEM, size=int(rng.choice([1, 2, 99])))
    species = [str(rng.choice(elem)) for _ in range(n)]
    atoms = dict(positions=pos.copy() if rng.random() < 0.5 else forms(rng, pos))
    how = ["names", "species", "both", "none"][int(rng.integers(4))]
    if how in ("names", "both"):
        every = int(rng.choice([1, 1, 2, 100]))
        atoms["names"] = [f"{s}{i}" if i % every == 0 else s for i, s in enumerate(species)]
    if how == "both":
        species = [str(rng.choice(ELEM + ["X"])) for _ in range(n)]
    if how in ("species", "both"):
        atoms["species"] = list(species)
    if how == "none":
        species = ["X"] * n
    if rng.random() < 0.3:
        atoms["spglib_types"] = [int(x) for x in rng.integers(1, 9, size=n)]
    if rng.random() < 0.3:
        atoms["tag"] = [f"t{x}" for x in rng.integers(0, 99, size=n)]
    if rng.random() < 0.5:
        atoms = {k: atoms[k] for k in reversed(list(atoms))}
    cols = [tables.ATOMS[s][1] if s != "X" else tables.UNKNOWN for s in species]
    k = int(rng.integers(4))
    if k == 0:
        kw["colors"] = str(rng.choice(NAMED))
        cols = [kw["colors"]] * n
    elif k == 1:
        cols = kw["colors"] = [str(rng.choice(NAMED)) for _ in range(n)]
    hover = True
    if rng.random() < 0.3:
        hover = kw["add_hoverinfo"] = bool(rng.random() < 0.3)
    if rng.random() < 0.3:
        kw["scale"] = 0.5
    for i in range(n):
        at = pos[i] @ cell + shift
        texts = []
        if hover:
            texts = [("Position (relative)", pos[i]), ("Position (absolute)", at)]
            for key, title in (
                ("names", "Name"),
                ("species", "Species"),
                ("spglib_types", "Spglib type"),
                ("tag", "tag"),
            ):
                if key in atoms:
                    texts.append((title, str(atoms[key][i])))
        e.markers.append(
            (at, cols[i], atoms["names"][i] if "names" in atoms else f"X{i + 1}", texts)
        )
    return "plot_atoms", (given, atoms), kw, e
