"""C06 - standardising a standardised crystal changes nothing."""

import numpy as np

import wulfric
from vlib import gen, oracle, published, workload
from vlib.core import Skip

ID = "C06"
RULE = (
    "histories of 2-4 standardisation steps (conventional/primitive, three conventions) where "
    "each step is fed with the unmodified output of the previous one; after each step the "
    "lattice, the parameters and the labels are compared with the ones of the first "
    "description; state = (lattice type, chain of steps)"
)
ASSUMPTIONS = ["spglib finds the same space group for an output as for the input"]
REQUIRED = {"steps judged": 1500, "chains": 500}
MIN_STATES = 300

STEPS = [
    (f, c)
    for f in ("get_conventional", "get_primitive")
    for c in ("HPKOT", "SC", "spglib")
]


def cases(tier, seed):
    n = {"quick": 4, "thorough": 30}[tier]
    for rep in range({"quick": 15, "thorough": 40}[tier]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(n):
        for sg in range(1, 231):
            yield dict(sg=sg, kind=("scrambled", "degenerate")[int(rep % 4 == 3 and sg < 195)], rep=rep)


def case(mon, spec):
    rng = mon.rng
    x = workload.make(mon, spec["sg"], spec["kind"])
    keys, how = workload.decorate(rng, x.typ)
    atoms = dict(positions=x.pos, **keys)
    cell = x.cell
    L = published.lattice_type(x.sg)
    first = {
        s: mon.call(getattr(wulfric.crystal, s[0]), cell, atoms, convention=s[1])
        for s in STEPS
    }
    symbol = mon.call(wulfric.crystal.hpkot_get_extended_bl_symbol, cell, atoms)
    try:
        variation = wulfric.crystal.sc_get_variation(cell, atoms)
    except ValueError:
        variation = None
    conv = first["get_conventional", "HPKOT"][0]
    amb = (
        len(
            published.classify_hpkot(
                x.sg,
                gen.params(conv),
                gen.params(np.linalg.inv(conv).T)[3:],
            )
        )
        != 1
    )
    if x.sg <= 2:
        # the order of the vectors is decided by products of the reciprocal cell
        r = np.linalg.inv(conv).T
        G = np.sort(np.abs([r[1] @ r[2], r[0] @ r[2], r[0] @ r[1]]))
        n = np.sort((r * r).sum(axis=1))
        if min(G[1] - G[0], G[2] - G[1], n[1] - n[0], n[2] - n[1]) < 1e-4 * n[2]:
            amb = True
    if x.kind == "degenerate":
        # the choice among the cells of the same shape is not unique
        amb = True
    prim = first["get_primitive", "spglib"][0]
    c, a = cell, atoms
    chain = []
    scale = max(1.0, np.abs(cell).max() / 5)
    for _ in range(int(rng.integers(2, 5))):
        s = STEPS[int(rng.integers(len(STEPS)))]
        chain.append(f"{s[0][4:8]}-{s[1]}")
        before = len(a["positions"])
        c, a = mon.call(getattr(wulfric.crystal, s[0]), c, a, convention=s[1])
        sd = mon.call(wulfric.get_spglib_data, c, a)
        where = ">".join(chain)
        mon.expect(
            int(sd.space_group_number) == x.sg,
            "space group changed",
            f"{sd.space_group_number} instead of {x.sg} after {where}",
        )
        ref_c, ref_a = first[s]
        mon.expect(
            len(a["positions"]) == len(ref_a["positions"]),
            f"number of atoms:{s}",
            f"{len(a['positions'])} atoms after {where}, {len(ref_a['positions'])} at once",
        )
        mon.expect(set(a) == set(atoms) | {"spglib_types"}, "keys changed", where)
        idx = oracle.sublattice_index(prim, c, tol=2e-3)
        want = published.lattice_points(L, s[1].lower()) if "conv" in s[0] else 1
        mon.expect(
            idx == want,
            f"another lattice:{s}",
            f"index {idx} of the lattice in the lattice of the crystal after {where}",
            cell=cell,
            atoms=atoms,
        )
        if not amb:
            mon.close(
                gen.params(c),
                gen.params(ref_c),
                2e-3 * scale,
                f"shape changed:{s}",
                f"parameters after {where} and at once",
                cell=cell,
                atoms=atoms,
            )
        shift = oracle.find_shift(
            cell,
            x.pos,
            workload.labels(atoms, how),
            c,
            a["positions"],
            workload.labels(a, how),
            5 * x.tol,
        )
        mon.expect(shift is not None, f"another crystal:{s}", f"after {where}")
        if not amb:
            got = mon.call(wulfric.crystal.hpkot_get_extended_bl_symbol, c, a)
            mon.expect(got == symbol, "symbol changed", f"{symbol} -> {got} after {where}")
            if variation is not None:
                got = mon.call(wulfric.crystal.sc_get_variation, c, a)
                mon.expect(
                    got == variation, "variation changed", f"{variation} -> {got}: {where}"
                )
        mon.count("steps judged")
    mon.count("chains")
    mon.state(L, *chain)
    mon.sample(dict(sg=x.sg, chain=chain, symbol=symbol, variation=variation))
