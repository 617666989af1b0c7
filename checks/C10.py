"""C10 - high-symmetry points are the published ones and lie where they have to lie."""

import numpy as np

import wulfric
from vlib import gen, kobs, published, workload

ID = "C10"
RULE = (
    "crystals of all 230 space groups described in many ways; names and positions in space of "
    "all points are compared with the published tables evaluated on the primitive cell, and "
    "every point is tested geometrically (it is equally far from several reciprocal lattice "
    "points and from none closer); state = (convention, symbol, kind)"
)
ASSUMPTIONS = [
    "F3 of MCLC1/MCLC2 is a known misprint of the publication and is not tested geometrically",
    "points of TRI are half reciprocal lattice vectors (not on the surface of the zone when "
    "the reciprocal cell is not reduced)",
]
REQUIRED = {"points judged": 15000, "geometric tests": 12000, "relative": 1000, "absolute": 1000}
MIN_STATES = 120


def cases(tier, seed):
    yield from kobs.specs(tier, 1, 8, (8, 100))


def case(mon, spec):
    x, atoms = kobs.crystal(mon, spec)
    own = workload.own_data(mon, x, atoms)
    rcell = kobs.recip(x.cell)
    for conv in ("HPKOT", "SC"):
        if conv == "HPKOT":
            cc, prim, rp, syms = kobs.hpkot_frame(mon, x, atoms, **own)
            a, b, c, al, be, ga = gen.params(cc)
            tables = {s: published.hpkot_points(s, a, b, c, be) for s in syms}
        else:
            cc, prim, rp, syms = kobs.sc_frame(mon, x, atoms, **kobs.own_tolerances(own))
            if "ValueError" in syms:
                mon.count("undefined variation")
                continue
            a, b, c, al, be, ga = gen.params(cc)
            tables = {s: published.sc_points(s, a, b, c, al) for s in syms}
        scale = np.abs(rp).max()
        got = {}
        for rel in (True, False):
            tr = bool(mon.rng.random() < 0.7)
            _, pts = mon.call(
                wulfric.kpoints.get_path_and_points,
                x.cell,
                atoms,
                convention=conv,
                relative=rel,
                with_time_reversal=tr,
                **own,
            )
            pts = {n: np.array(v, float) for n, v in pts.items() if not n.endswith("_P")}
            mon.expect(
                all(v.shape == (3,) for v in pts.values()), "shape", "shape of coordinates"
            )
            k = {n: (v @ rcell if rel else v) for n, v in pts.items()}
            got[rel] = k
            mon.count("relative" if rel else "absolute")
            # published positions
            errs = {}
            for s, table in tables.items():
                if set(table) != set(k):
                    errs[s] = f"names {sorted(set(table) ^ set(k))} differ"
                    continue
                for n, v in table.items():
                    want = np.array(v) @ rp
                    if not np.abs(want - k[n]).max() <= 1e-6 * scale:
                        errs[s] = f"{n} at {k[n]}, published {want} (relative {v})"
                        bad = n
                        break
            mon.count("points judged", len(k))
            if len(errs) == len(tables):
                s, msg = sorted(errs.items())[0]
                mon.expect(
                    False,
                    f"published points:{conv}:{s}:{'relative' if rel else 'absolute'}",
                    f"{conv} {s}, relative={rel}: {msg}",
                    cell=x.cell,
                    atoms=atoms,
                )
            sym = [s for s in tables if s not in errs][0]
        for n in got[True]:
            mon.close(
                got[True][n],
                got[False][n],
                1e-6 * scale,
                f"relative and absolute:{conv}",
                f"{n}, space group {x.sg}",
            )
        mon.close(got[True]["GAMMA"], np.zeros(3), 1e-9 * scale, "GAMMA", "GAMMA")
        if mon.rng.random() < 0.4:
            kw = dict(own)
            if mon.rng.random() < 0.5 and not own:
                kw["spglib_data"] = mon.call(wulfric.get_spglib_data, x.cell, atoms)
            kp = mon.call(wulfric.Kpoints.from_crystal, x.cell, atoms, convention=conv, **kw)
            mon.close(kp.rcell, rcell, 1e-9 * scale, "Kpoints reciprocal cell", "")
            mon.expect(set(kp.hs_names) == set(got[True]), "Kpoints names", f"{kp.hs_names}")
            for n in got[True]:
                mon.close(
                    kp.hs_coordinates[n] @ rcell,
                    got[True][n],
                    1e-6 * scale,
                    f"Kpoints coordinates:{conv}",
                    n,
                )
            mon.count("Kpoints objects")
        # geometry
        red = kobs.reduced(rp)
        tol = 2e-4 * scale if sym in ("ORCF3", "MCLC2", "MCLC4") or len(tables) > 1 else 2e-6 * scale
        for n, v in got[False].items():
            if n == "GAMMA":
                continue
            mon.count("geometric tests")
            if sym.startswith("TRI"):
                h = 2 * v @ np.linalg.inv(rp)
                mon.close(h, np.round(h), 1e-6, f"half of a vector:{sym}:{n}", n)
                mon.expect(np.abs(h - 2 * np.round(h / 2)).max() > 0.5, f"GAMMA again:{sym}:{n}", n)
                continue
            if sym in ("MCLC1", "MCLC2") and n == "F3":
                continue
            d = kobs.nearest(v, red)
            r = np.linalg.norm(v)
            mon.expect(
                r <= d[0] + tol,
                f"outside of the zone:{conv}:{sym}",
                f"{conv} {sym}: {n} is {r - d[0]:.3g} farther from GAMMA than from another "
                "point of the reciprocal lattice",
                cell=x.cell,
            )
            mon.expect(
                d[1] - d[0] <= tol,
                f"inside of the zone:{conv}:{sym}",
                f"{conv} {sym}: {n} is not on the surface of the zone ({d[:3]})",
                cell=x.cell,
            )
        mon.state(conv, sym, x.kind.split(":")[0])
    mon.sample(dict(sg=x.sg, kind=x.kind, points={n: v for n, v in got[True].items()}))
