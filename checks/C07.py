"""C07 - calls leave the caller's data and the library alone; results do not depend on history."""

import copy

import numpy as np

import wulfric
import wulfric.constants as K
from vlib import snap, workload
from vlib.core import Skip

ID = "C07"
RULE = (
    "random sequences of calls on two crystals of one space group, each result defaced by the "
    "caller, each call given the symmetry data explicitly, implicitly or with a mismatch; "
    "before/after snapshots of every argument, of the symmetry data and of all constants are "
    "compared and each result is compared with the first one; state = (function, options, "
    "given/implicit symmetry data)"
)
ASSUMPTIONS = [
    "values nested in lists of atoms' data may be shared between an input and an output"
]
REQUIRED = {
    "calls judged": 2000,
    "repeated calls": 800,
    "refusals observed": 300,
    "given data": 800,
    "read-only arguments": 80,
}
MIN_STATES = 30


def cases(tier, seed):
    n = {"quick": 2, "thorough": 10}[tier]
    for rep in range({"quick": 8, "thorough": 20}[tier]):
        yield from workload.focus_specs(rep)
        yield from workload.edge_specs(rep)
    for rep in range(n):
        for kind in ("scrambled", "degenerate", "plain"):
            for sg in range(1, 195 if kind == "degenerate" else 231):
                if tier == "quick" and sg % 3 != {"scrambled": 0, "plain": 1}.get(kind, 2):
                    continue
                yield dict(sg=sg, kind=kind, rep=rep)


def constants():
    return snap.freeze({n: getattr(K, n) for n in sorted(dir(K)) if n.isupper()})


def functions():
    c, k = wulfric.crystal, wulfric.kpoints
    out = []
    for conv in ("HPKOT", "SC", "spglib"):
        out.append((c.get_conventional, dict(convention=conv)))
        out.append((c.get_primitive, dict(convention=conv)))
    for conv in ("HPKOT", "SC", "hpkot", "sc", "Sc"):
        for tr in (True, False):
            for rel in (True, False):
                out.append(
                    (
                        k.get_path_and_points,
                        dict(convention=conv, with_time_reversal=tr, relative=rel),
                    )
                )
    out.append((c.hpkot_get_extended_bl_symbol, {}))
    out.append((c.sc_get_variation, {}))
    for conv in ("HPKOT", "SC"):
        out.append((wulfric.Kpoints.from_crystal, dict(convention=conv)))
    return out


def attempt(f, *args, **kwargs):
    try:
        return f(*args, **kwargs)
    except ValueError:
        return "ValueError"


def observe(r):
    if isinstance(r, wulfric.Kpoints):
        return dict(
            path=r.path,
            labels=list(r.labels),
            names=list(r.hs_names),
            points=np.array(r.points()),
            coordinates=copy.deepcopy(r.hs_coordinates),
        )
    return copy.deepcopy(r)


def mismatches(rng, cell, atoms, how, sd):
    """(cell, atoms) that the symmetry data were not created for."""
    i = int(rng.integers(3))
    other = np.array(cell)
    other[i] = other[i] * 1.01
    yield "cell", other, atoms
    moved = dict(atoms)
    moved["positions"] = np.array(atoms["positions"]) + np.eye(3)[i] * 0.01
    yield "positions", cell, moved
    one = dict(atoms)
    p = np.array(atoms["positions"])
    p[int(rng.integers(len(p))), i] += 0.02
    one["positions"] = p
    yield "position of one atom", cell, one
    t = list(sd.original_types)
    t[int(rng.integers(len(t)))] += 1
    new = {k: v for k, v in atoms.items()}
    new["spglib_types"] = t
    yield "types", cell, new
    if len(set(map(tuple, np.round(p, 6).tolist()))) > 1:
        order = np.roll(np.arange(len(p)), 1)
        perm = dict(atoms)
        perm["positions"] = np.array(atoms["positions"])[order]
        if not np.allclose(perm["positions"], atoms["positions"]):
            yield "order of atoms", cell, perm


def case(mon, spec):
    rng = mon.rng
    before_constants = constants()
    crystals = []
    for _ in range(2):
        x = workload.make(mon, spec["sg"], spec["kind"])
        keys, how = workload.decorate(rng, x.typ)
        atoms = workload.atoms_of(x, keys, as_list=rng.random() < 0.3)
        cell = np.array(x.cell)
        form = str(rng.choice(["array", "read-only", "list"]))
        if form == "list":
            cell = cell.tolist()
        if form == "read-only":
            cell.flags.writeable = False
            if isinstance(atoms["positions"], np.ndarray):
                atoms["positions"].flags.writeable = False
            mon.count("read-only arguments")
        sd = mon.call(wulfric.get_spglib_data, cell, atoms)
        crystals.append(dict(cell=cell, atoms=atoms, sd=sd, how=how, first={}))
        mon.expect(
            sd.original_cell is not cell and sd.original_positions is not atoms["positions"],
            "aliased:get_spglib_data",
            "symmetry data hold the arrays of the caller",
        )
    fns = functions()
    steps = 16
    for step in range(steps):
        x = crystals[int(rng.integers(2))]
        if step % 3 == 2 and x["first"]:
            i = sorted(x["first"])[int(rng.integers(len(x["first"])))]
        else:
            i = int(rng.integers(len(fns)))
        f, kw = fns[i]
        given = bool(rng.random() < 0.5)
        name = f.__name__
        snaps = (
            snap.freeze(x["cell"]),
            snap.freeze(x["atoms"]),
            snap.freeze(x["sd"]),
        )
        # documented refusals of SC for the metrics on the border of two variations
        border = (
            spec["kind"] == "degenerate"
            and name not in ("get_conventional", "get_primitive")
            and (name == "sc_get_variation" or kw.get("convention", "").lower() == "sc")
        )
        r = mon.call(
            attempt if border else f,
            *([f] if border else []),
            x["cell"],
            x["atoms"],
            **kw,
            **(dict(spglib_data=x["sd"]) if given else {}),
        )
        obs = observe(r)
        for a, b, what in zip(
            snaps,
            (x["cell"], x["atoms"], x["sd"]),
            ("cell", "atoms", "spglib_data"),
        ):
            mon.expect(
                a == snap.freeze(b),
                f"modified {what}:{name}",
                f"{name}{kw} modified {what} of the caller",
                spec=spec,
            )
        if not isinstance(r, wulfric.Kpoints):
            snap.deface(r)
        else:
            for v in r.hs_coordinates.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 77
            r.hs_names.append("defaced")
        for a, b, what in zip(
            snaps,
            (x["cell"], x["atoms"], x["sd"]),
            ("cell", "atoms", "spglib_data"),
        ):
            mon.expect(
                a == snap.freeze(b),
                f"aliased {what}:{name}",
                f"writing into the result of {name}{kw} changed {what} of the caller",
                spec=spec,
            )
        mon.expect(
            constants() == before_constants,
            f"constants changed:{name}",
            f"{name}{kw} (or writing into its result) changed the constants",
        )
        mon.count("calls judged")
        if given:
            mon.count("given data")
        mon.state(name, *kw.values(), given)
        if i in x["first"]:
            mon.count("repeated calls")
            mon.expect(
                snap.equal(x["first"][i][0], obs),
                f"history:{name}",
                f"{name}{kw} returned something else when it was called for the second time "
                f"({x['first'][i][1]} / {given}: symmetry data given)",
                first=x["first"][i][0],
                second=obs,
            )
        else:
            x["first"][i] = (obs, given)
        # the same convention in another case
    for x in crystals:
        # case of the convention
        for f in (wulfric.crystal.get_conventional, wulfric.crystal.get_primitive):
            conv = str(rng.choice(["HPKOT", "SC", "spglib"]))
            a = mon.call(f, x["cell"], x["atoms"], convention=conv)
            b = mon.call(f, x["cell"], x["atoms"], convention=conv.swapcase())
            mon.expect(
                snap.equal(a, b), f"case of convention:{f.__name__}", f"{conv}, {conv.swapcase()}"
            )
        # refusals
        f, kw = fns[int(rng.integers(len(fns)))]
        for what, c2, a2 in mismatches(rng, x["cell"], x["atoms"], x["how"], x["sd"]):
            mon.refuses(ValueError, f, c2, a2, spglib_data=x["sd"], **kw)
            mon.count(f"mismatch of {what}")
        mon.refuses(
            TypeError,
            f,
            x["cell"],
            x["atoms"],
            spglib_data=dict(vars(x["sd"])),
            **kw,
        )
        for f in (
            wulfric.crystal.get_conventional,
            wulfric.crystal.get_primitive,
            wulfric.kpoints.get_path_and_points,
        ):
            bad = str(rng.choice(["unknown", "", "HP KOT", "SCC", "hpkot2"]))
            mon.refuses(
                wulfric.ConventionNotSupported,
                f,
                x["cell"],
                x["atoms"],
                convention=bad,
            )
    # the caller goes on using (and changing) what was given
    for x in crystals:
        cell, atoms = copy.deepcopy(x["cell"]), copy.deepcopy(x["atoms"])
        for a in (cell, atoms["positions"]):
            if isinstance(a, np.ndarray):
                a.flags.writeable = True
        sd = mon.call(wulfric.get_spglib_data, cell, atoms)
        i = int(rng.integers(len(fns)))
        f, kw = fns[i]
        if spec["kind"] == "degenerate" and rng.random() < 0.5:
            f, kw = wulfric.crystal.get_primitive, {}
        r = mon.call(attempt, f, cell, atoms, **kw)
        obs = observe(r)
        before = snap.freeze(sd)
        snap.deface(cell)
        snap.deface(atoms)
        mon.expect(
            snap.freeze(sd) == before,
            "aliased:get_spglib_data",
            "writing into the cell and atoms, for which symmetry data were made, changed the data",
            spec=spec,
        )
        mon.expect(
            snap.equal(obs, observe(r)) if not isinstance(r, str) else True,
            f"aliased:{f.__name__}",
            f"writing into the arguments changed the result of {f.__name__}{kw}",
            spec=spec,
        )
        # data made before are still the ones of the crystal
        mon.call(
            wulfric.crystal.get_primitive, x["cell"], x["atoms"], spglib_data=sd, convention="spglib"
        )
        mon.count("defaced arguments")
    mon.sample(dict(sg=spec["sg"], calls=mon.calls, first=sorted(crystals[0]["first"])))
