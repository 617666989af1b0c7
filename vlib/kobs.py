r"""Observation of the reciprocal-space interface for one crystal (shared by C08 - C12)."""

import itertools
import math

import numpy as np

import wulfric
from vlib import gen, published, workload

_N2 = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))


def recip(cell):
    return 2 * math.pi * np.linalg.inv(cell).T


def specs(tier, quick=1, thorough=8, focus=(6, 60)):
    for rep in range(focus[tier == "thorough"]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(thorough if tier == "thorough" else quick):
        for k in range(80):
            yield dict(sg=1 + k % 2, kind="strained", rep=80 * rep + k)
        for kind in ("scrambled", "degenerate", "left", "plain", "noise", "rough"):
            for sg in range(1, 195 if kind == "degenerate" else 231):
                yield dict(sg=sg, kind=kind, rep=rep)


def crystal(mon, spec):
    x = workload.make(mon, spec["sg"], spec["kind"])
    keys, how = workload.decorate(mon.rng, x.typ, extra=False)
    return x, workload.atoms_of(x, keys, as_list=mon.rng.random() < 0.2)


def hpkot_frame(mon, x, atoms, **kw):
    """Conventional and primitive cell, reciprocal of the primitive one, set of symbols."""
    conv = np.array(mon.call(wulfric.crystal.get_conventional, x.cell, atoms, convention="HPKOT", **kw)[0])
    L = published.lattice_type(x.sg)
    prim = published.HPKOT_MATRIX[L].T @ conv
    sym = published.classify_hpkot(x.sg, gen.params(conv), gen.params(recip(conv))[3:])
    return conv, prim, recip(prim), sym


def sc_frame(mon, x, atoms, sd=None, **tolerance):
    kw = {} if sd is None else dict(spglib_data=sd)
    conv = np.array(
        mon.call(wulfric.crystal.get_conventional, x.cell, atoms, convention="SC", **kw)[0]
    )
    L = published.lattice_type(x.sg)
    prim = published.SC_MATRIX[L].T @ conv
    var = published.classify_sc(x.sg, gen.params(conv), gen.params(recip(prim))[3:], **tolerance)
    return conv, prim, recip(prim), var


def own_tolerances(own):
    """Keywords for ``sc_frame`` from the keyword with the symmetry data of the user."""
    if not own:
        return {}
    sd = own["spglib_data"]
    a = sd.angle_tolerance
    return dict(sd=sd, symprec=sd.symprec, angle=1e-4 if a == -1 else a)


def reduced(basis):
    """Basis of the same lattice with short vectors (pairwise reduction)."""
    b = np.array(basis, dtype=float)
    for _ in range(200):
        changed = False
        for i in range(3):
            best, nb = b[i] @ b[i], None
            for v in itertools.product((-1, 0, 1), repeat=2):
                if v == (0, 0):
                    continue
                j, k = [m for m in range(3) if m != i]
                w = b[i] + v[0] * b[j] + v[1] * b[k]
                if w @ w < best * (1 - 1e-10):
                    best, nb = w @ w, w
            if nb is not None:
                b[i] = nb
                changed = True
        if not changed:
            break
    return b


def nearest(k, basis):
    """Sorted distances from ``k`` to the points of the lattice close to it."""
    f = k @ np.linalg.inv(basis)
    pts = (np.round(f) + _N2) @ basis
    return np.sort(np.linalg.norm(k - pts, axis=1))


def small_group(k, sg, rots, rec_cell, tol):
    """Number of crystal class operations that keep k up to a reciprocal lattice vector."""
    n = 0
    for r in rots:
        d = (k @ r - k) @ np.linalg.inv(rec_cell)
        n += bool(np.abs(d - np.round(d)).max() < tol)
    return n
