"""C08 - the extended Bravais lattice symbol is the published one."""

import numpy as np

import wulfric
from vlib import gen, kobs, published, workload
from vlib.core import Skip

ID = "C08"
RULE = (
    "crystals of all 230 space groups, aimed at each symbol, its borders and special metrics; "
    "the symbol is compared with the published rules evaluated on the space group of the "
    "construction and on the measured parameters; state = (symbol, space group)"
)
ASSUMPTIONS = ["metrics closer than 1e-6 to a border may be given any of the symbols that meet"]
REQUIRED = {"decided symbols": 1000, "borders": 10}
REQUIRED.update({f"symbol {s}": 2 for s in published.HPKOT_PATHS})
MIN_STATES = 230


def cases(tier, seed):
    yield from kobs.specs(tier, 1, 12, (10, 150))
    for rep in range(100, {"quick": 180, "thorough": 1500}[tier]):
        yield from workload.edge_specs(rep)


def case(mon, spec):
    x, atoms = kobs.crystal(mon, spec)
    kw = workload.own_data(mon, x, atoms)
    conv, prim, rp, want = kobs.hpkot_frame(mon, x, atoms, **kw)
    if not kw and mon.rng.random() < 0.5:
        kw["spglib_data"] = mon.call(wulfric.get_spglib_data, x.cell, atoms)
    got = mon.call(wulfric.crystal.hpkot_get_extended_bl_symbol, x.cell, atoms, **kw)
    mon.expect(
        got in want,
        f"symbol:{published.lattice_type(x.sg)}",
        f"{got} for space group {x.sg} with parameters {gen.params(conv)}, published {want}",
        cell=x.cell,
        atoms=atoms,
    )
    # the symbol starts with the lattice type reported for the crystal
    sd = kw.get("spglib_data") or mon.call(wulfric.get_spglib_data, x.cell, atoms)
    mon.expect(
        got[:2] == sd.crystal_family + sd.centring_type == published.lattice_type(x.sg),
        "lattice type",
        f"{got}, {sd.crystal_family}{sd.centring_type}",
    )
    mon.count("decided symbols" if len(want) == 1 else "borders")
    mon.count(f"symbol {got}")
    mon.state(got, x.sg)
    mon.sample(dict(sg=x.sg, symbol=got, params=gen.params(conv)))
