"""C02 - the primitive cell holds exactly one lattice point of the crystal."""

import numpy as np

import wulfric
from vlib import gen, oracle, published, workload
from vlib.core import Skip

ID = "C02"
RULE = (
    "crystals of all 230 space groups in random descriptions (up to 4-fold supercells); the "
    "lattice of the crystal is found independently from the atoms; non-trivial when a "
    "primitive and a conventional cell were compared with it; "
    "state = (lattice type, kind, convention, number of lattice points in the input cell)"
)
ASSUMPTIONS = ["pure translations of the crystal are the ones that map all atoms on atoms"]
REQUIRED = {"primitive cells judged": 1000, "inputs with several lattice points": 200}
MIN_STATES = 150


def cases(tier, seed):
    n = {"quick": 2, "thorough": 10}[tier]
    for rep in range({"quick": 10, "thorough": 30}[tier]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(n):
        for k in range(40):
            yield dict(sg=1 + k % 2, kind="strained", rep=1000 * (rep + 1) + k)
        for kind in workload.KINDS:
            for sg in range(1, 231):
                if kind == "degenerate" and sg > 194:
                    continue
                yield dict(sg=sg, kind=kind, rep=rep)


def case(mon, spec):
    x = workload.make(mon, spec["sg"], spec["kind"])
    keys, how = workload.decorate(mon.rng, x.typ, extra=False)
    atoms = workload.atoms_of(x, keys)
    kw = workload.own_data(mon, x, atoms)
    sg = x.sg
    if x.kind == "special":
        try:
            sd = wulfric.get_spglib_data(x.cell, atoms, spglib_symprec=x.symprec)
        except Exception:
            mon.count("spglib gave up")
            return
        kw["spglib_data"] = sd
        sg = int(sd.space_group_number)
    lattice = published.lattice_type(sg)
    tr = oracle.translation_lattice(x.cell, x.pos, x.typ, x.tol)
    rough = x.kind in ("special", "rough")
    if rough:
        # translations that hold only approximately are decided by the tolerance
        for tol in (0.2 * x.symprec, 8 * x.symprec):
            if len(oracle.translation_lattice(x.cell, x.pos, x.typ, tol)) != len(tr):
                raise Skip()
    v_in = abs(np.linalg.det(x.cell))
    n_in = len(tr)
    # rounding: the periods of the crystal in Cartesian coordinates, with the cell
    v_lattice = v_in / n_in
    if n_in > 1:
        mon.count("inputs with several lattice points")
    for conv, matrices in (
        ("HPKOT", published.HPKOT_MATRIX),
        ("SC", published.SC_MATRIX),
        ("spglib", None),
    ):
        pc, pa = mon.call(wulfric.crystal.get_primitive, x.cell, atoms, convention=conv, **kw)
        cc, ca = mon.call(
            wulfric.crystal.get_conventional, x.cell, atoms, convention=conv, **kw
        )
        pc, cc = np.array(pc, float), np.array(cc, float)
        vp, vc = abs(np.linalg.det(pc)), abs(np.linalg.det(cc))
        rel = 1e-3 if rough else 1e-4
        mon.close(
            vp / v_lattice,
            1,
            rel,
            f"volume of primitive:{conv}",
            f"{conv} primitive cell of {lattice} holds {vp / v_lattice:.4f} lattice points,",
            cell=x.cell,
            atoms=atoms,
        )
        k = published.lattice_points(lattice, conv.lower())
        mon.close(
            vc / vp, k, 1e-3, f"volume ratio:{conv}:{lattice}", f"{conv} {lattice} Vc/Vp"
        )
        mon.expect(
            len(ca["positions"]) == k * len(pa["positions"]),
            f"number of atoms:{conv}:{lattice}",
            f"{len(ca['positions'])} in conventional, {len(pa['positions'])} in primitive, "
            f"{k} lattice points",
        )
        mon.expect(
            len(pa["positions"]) * n_in == len(x.pos),
            f"number of primitive atoms:{conv}",
            f"{len(pa['positions'])} atoms in primitive, {len(x.pos)} in the input with "
            f"{n_in} lattice points",
        )
        # every vector of the input cell and of the conventional cell is a period
        for name, other in (("input", x.cell), ("conventional", cc)):
            m = other @ np.linalg.inv(pc)
            mon.close(
                m,
                np.round(m),
                2e-2 if rough else 1e-3,
                f"{name} not a sublattice:{conv}",
                f"{name} cell in units of {conv} primitive",
            )
        for t in tr[:6]:
            m = (t @ x.cell) @ np.linalg.inv(pc)
            mon.close(
                m,
                np.round(m),
                2e-2 if rough else 2e-3,
                f"lost translation:{conv}",
                "translation of the crystal in units of primitive cell",
            )
        if matrices is not None:
            mon.close(
                pc,
                matrices[lattice].T @ cc,
                1e-6 * max(1.0, np.abs(cc).max()),
                f"published matrix:{conv}:{lattice}",
                f"{conv} {lattice} primitive cell and published combination of conventional",
            )
        mon.count("primitive cells judged")
        mon.state(lattice, x.kind, conv, n_in)
    mon.sample(dict(sg=sg, lattice=lattice, lattice_points_in_input=n_in, atoms=len(x.pos)))
