"""C09 - the variation of the lattice in the convention of Setyawan and Curtarolo."""

import wulfric
import spglib
from vlib import gen, kobs, published, workload
from vlib.core import Skip

ID = "C09"
RULE = (
    "crystals of all 230 space groups, aimed at each variation, its borders and special "
    "metrics; the variation is compared with the published rules evaluated on the measured "
    "parameters; documented refusals are accepted only where the rules are undefined; "
    "state = (variation, space group)"
)
ASSUMPTIONS = [
    "borders are as wide as the tolerances of the symmetry data (symprec; angles 1e-4 degrees "
    "unless given); metrics between one half and two tolerances from a border may be given any "
    "of the variations that meet there"
]
REQUIRED = {"decided variations": 1000, "ambiguous": 5, "near border": 100}
REQUIRED.update({f"variation {s}": 1 for s in published.SC_PATHS})
MIN_STATES = 230


def cases(tier, seed):
    yield from kobs.specs(tier, 1, 12, (10, 150))
    for rep in range({"quick": 40, "thorough": 500}[tier]):
        for spec in workload.near_specs(rep):
            yield dict(spec, scale=[0.4, 1, 1, 8][rep % 4], tol=rep % 3)


def dataset_number(x, symprec, angle):
    d = spglib.get_symmetry_dataset(
        (x.cell, x.pos, [int(t) for t in x.typ]), symprec=symprec, angle_tolerance=angle
    )
    return None if d is None else d.number


def case(mon, spec):
    x, atoms = kobs.crystal(mon, spec)
    x.cell = x.cell * spec.get("scale", 1)
    kw, tol = {}, {}
    if spec.get("tol"):
        # tolerances chosen by the user
        symprec, angle = [(1e-5, -1), (1e-5, 0.01), (2e-4, -1)][spec["tol"]]
        if dataset_number(x, symprec, angle) != x.sg:
            raise Skip()
        sd = mon.call(
            wulfric.get_spglib_data,
            x.cell,
            atoms,
            spglib_symprec=symprec,
            spglib_angle_tolerance=angle,
        )
        kw["spglib_data"] = sd
        tol = dict(sd=sd, symprec=symprec, angle=1e-4 if angle == -1 else angle)
    elif x.kind == "rough":
        kw = workload.own_data(mon, x, atoms)
        tol = kobs.own_tolerances(kw)
    elif mon.rng.random() < 0.5:
        kw["spglib_data"] = mon.call(wulfric.get_spglib_data, x.cell, atoms)
    conv, prim, rp, want = kobs.sc_frame(mon, x, atoms, **tol)

    def attempt(*args, **kwargs):
        try:
            return wulfric.crystal.sc_get_variation(*args, **kwargs)
        except ValueError:
            return "ValueError"

    attempt.__qualname__ = "sc_get_variation"
    got = mon.call(attempt, x.cell, atoms, **kw)
    mon.expect(
        got in want,
        f"variation:{published.lattice_type(x.sg)}",
        f"{got} for space group {x.sg} with parameters {gen.params(conv)}, published {want}",
        cell=x.cell,
        atoms=atoms,
    )
    mon.count("decided variations" if len(want) == 1 else "ambiguous")
    mon.count(f"variation {got}")
    if spec["kind"].startswith("near:"):
        mon.count("near border" if len(want) == 1 else "near border, ambiguous")
        mon.count(f"near {spec['kind'][5:]}: {got}")
    mon.state(got, x.sg)
    mon.sample(dict(sg=x.sg, variation=got, params=gen.params(conv)))
