"""C01 - standardised cells describe the same crystal in the same orientation."""

import numpy as np

import wulfric
from vlib import oracle, workload

ID = "C01"
RULE = (
    "crystals of all 230 space groups in random settings (Hall database), described with "
    "random unimodular / supercell / rotated / shifted / permuted / left-handed / noisy / "
    "metrically degenerate cells; a case is non-trivial when an output was matched atom by "
    "atom against the input; state = (space group, kind of description, convention, function)"
)
ASSUMPTIONS = [
    "spglib finds the space group of the generated crystal at the given symprec",
    "atoms coincide within 1e-4 A (0.03 A for symprec=1e-2 workloads)",
]
REQUIRED = {"crystals matched": 1500, "supercells": 30, "left-handed": 60}
MIN_STATES = 1000


def cases(tier, seed):
    n = {"quick": 2, "thorough": 12}[tier]
    for rep in range({"quick": 10, "thorough": 30}[tier]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(40 * n):
        yield dict(sg=1 + rep % 2, kind="strained", rep=rep)
    for rep in range(n):
        for kind in workload.KINDS:
            for sg in range(1, 231):
                if kind == "degenerate" and sg > 194:
                    continue
                yield dict(sg=sg, kind=kind, rep=rep)


def case(mon, spec):
    x = workload.make(mon, spec["sg"], spec["kind"])
    keys, how = workload.decorate(mon.rng, x.typ, extra=False)
    atoms = workload.atoms_of(x, keys, as_list=mon.rng.random() < 0.3)
    kw = workload.own_data(mon, x, atoms)
    if x.kind == "special":
        try:
            kw["spglib_data"] = wulfric.get_spglib_data(
                x.cell, atoms, spglib_symprec=x.symprec
            )
        except Exception:
            mon.count("spglib gave up")
            return
    in_types = workload.labels(atoms, how)
    density = len(x.pos) / abs(np.linalg.det(x.cell))
    if abs(np.linalg.det(x.cell)) > 1.5 * abs(np.linalg.det(x.base[0])):
        mon.count("supercells")
    if np.linalg.det(x.cell) < 0:
        mon.count("left-handed")
    cell_in = x.cell.tolist() if mon.rng.random() < 0.3 else x.cell.copy()
    for conv in ("HPKOT", "SC", "spglib"):
        conv = str(mon.rng.choice([conv, conv.lower(), conv.upper()]))
        for f in (wulfric.crystal.get_conventional, wulfric.crystal.get_primitive):
            c, a = mon.call(f, cell_in, atoms, convention=conv, **kw)
            c = np.array(c, dtype=float)
            p = np.array(a["positions"], dtype=float)
            mon.expect(c.shape == (3, 3), "cell shape", f"{c.shape}")
            mon.expect(
                p.ndim == 2 and p.shape[1] == 3 and len(p) > 0, "positions shape"
            )
            t = workload.labels(a, how)
            mon.expect(len(t) == len(p), "types and positions of different length")
            who = f"{f.__name__}:{conv.lower()}"
            d_out = len(p) / abs(np.linalg.det(c))
            mon.close(
                d_out / density, 1, 1e-3, f"density:{who}", f"{who} density of atoms"
            )
            mon.expect(
                oracle.distinct_atoms(c, p, min(1e-2, x.tol)),
                f"repeated atom:{who}",
                f"{who} returns the same atom twice",
            )
            shift = oracle.find_shift(x.cell, x.pos, in_types, c, p, t, x.tol)
            if shift is None:
                # is it there in another orientation?
                mon.expect(
                    False,
                    f"different crystal:{who}",
                    f"{who} of {x.kind} description of space group {x.sg} ({how}) does "
                    "not describe the given crystal in the given orientation",
                    cell=x.cell,
                    atoms=atoms,
                    out_cell=c,
                    out_atoms=a,
                )
            # same count, same density and every output atom is an input atom: equal
            # crystals provided that the output lattice consists of translations of the
            # input crystal
            for v in c:
                moved = oracle.unmatched_atoms(
                    x.cell, x.pos, in_types, c, p + v @ np.linalg.inv(c), t, shift, x.tol
                )
                mon.expect(
                    not moved, f"not a lattice:{who}", f"{who} vectors are not periods"
                )
            mon.count("crystals matched")
            mon.count("atoms matched", len(p))
            mon.state(x.sg, x.kind, who)
    mon.sample(
        dict(sg=x.sg, kind=x.kind, n_atoms=len(x.pos), cell=np.round(x.cell, 4), how=how)
    )
