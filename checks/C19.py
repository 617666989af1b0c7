"""C19 - lattice points are all integer combinations in the asked range, each once."""

import itertools

import numpy as np

import wulfric
from checks.C16 import random_cell

ID = "C19"
RULE = (
    "random cells (lists, arrays, integer ones) and ranges with different and zero extents, "
    "all four forms of the answer; the points are compared with all integer combinations; "
    "state = (range, form)"
)
ASSUMPTIONS = []
REQUIRED = {"answers judged": 2000, "points judged": 50000, "long ranges": 50}
MIN_STATES = 150


def cases(tier, seed):
    for i in range({"quick": 4000, "thorough": 15000}[tier]):
        yield dict(i=i)


def case(mon, spec):
    rng = mon.rng
    kind, c = random_cell(rng)
    if rng.random() < 0.2:
        c = np.diag([1, 2, 3]) + rng.integers(-1, 2, size=(3, 3)) * np.tri(3, k=-1, dtype=int)
    n = [int(x) for x in rng.integers(0, 5, size=3)]
    if rng.random() < 0.05:
        # long ranges along one direction
        n = [0, 0, 0]
        n[int(rng.integers(3))] = int(rng.integers(100, 700))
        if rng.random() < 0.3:
            n[int(rng.integers(3))] += 1
        mon.count("long ranges")
    given = c.copy() if rng.random() < 0.5 else c.tolist()
    rg = [tuple(n), list(n), np.array(n)][int(rng.integers(3))]
    want = np.array(
        list(itertools.product(*(range(-k, k + 1) for k in n))), dtype=float
    ).reshape(*(2 * k + 1 for k in n), 3)
    default = rng.random() < 0.1
    if default:
        n = [1, 1, 1]
        want = np.array(list(itertools.product(range(-1, 2), repeat=3)), float).reshape(3, 3, 3, 3)
    for rel in (False, True):
        for flat in (False, True):
            kw = dict(range=rg, relative=rel, flat=flat)
            if default:
                kw.pop("range")
            if not rel and rng.random() < 0.5:
                kw.pop("relative")
            if flat and rng.random() < 0.5:
                kw.pop("flat")
            p = np.asarray(mon.call(wulfric.cell.get_lattice_points, given, **kw), float)
            w = want if rel else np.einsum("...i,ij->...j", want, np.array(c, float))
            if flat:
                w = w.reshape(-1, 3)
            mon.expect(p.shape == w.shape, "shape", f"{p.shape}, expected {w.shape} for {kw}")
            tol = 1e-12 * (1 + np.abs(w).max())
            if flat:
                # every point exactly once, whatever the order
                key = np.linalg.solve(np.array(c, float).T, p.T).T if not rel else p
                r = np.round(key).astype(int)
                mon.expect(
                    len({tuple(x) for x in r.tolist()}) == len(w),
                    "repeated points",
                    f"{len(w)} different points expected for {kw}",
                )
                mon.expect(
                    bool((np.abs(r).max(axis=0) <= n).all()), "out of range", f"{kw}"
                )
                mon.close(r @ (np.eye(3) if rel else c), p, tol, "not a lattice point", f"{kw}")
            else:
                mon.close(p, w, tol, "point at an index", f"element i,j,k of {kw}")
            mon.count("answers judged")
            mon.count("points judged", len(w.reshape(-1, 3)))
            mon.state(*n, rel, flat)
    mon.sample(dict(kind=kind, range=n, first=p.reshape(-1, 3)[0]))
