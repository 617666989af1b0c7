"""C12 - paths without time reversal cover the other half of the reciprocal space."""

import numpy as np

import wulfric
from vlib import kobs, published, workload

ID = "C12"
RULE = (
    "crystals of all 230 space groups, with and without time reversal, in both conventions "
    "and both kinds of coordinates; the extension is compared with the statement of the "
    "publication; state = (convention, space group, extended or not)"
)
ASSUMPTIONS = ["centrosymmetric space groups are taken from the crystal classes"]
REQUIRED = {"extended": 800, "not extended": 500, "points judged": 5000}
MIN_STATES = 400


def cases(tier, seed):
    yield from kobs.specs(tier, 1, 8, (4, 60))


def case(mon, spec):
    x, atoms = kobs.crystal(mon, spec)
    own = workload.own_data(mon, x, atoms)
    inv = published.has_inversion(x.sg)
    for conv in ("HPKOT", "SC"):
        if conv == "SC" and "ValueError" in kobs.sc_frame(mon, x, atoms, **kobs.own_tolerances(own))[3]:
            continue
        for rel in (True, False):
            res = []
            for tr in (True, False):
                kw = dict(own)
                if not own and mon.rng.random() < 0.3:
                    kw["spglib_data"] = mon.call(wulfric.get_spglib_data, x.cell, atoms)
                res.append(
                    mon.call(
                        wulfric.kpoints.get_path_and_points,
                        x.cell,
                        atoms,
                        convention=conv,
                        relative=rel,
                        with_time_reversal=tr,
                        **kw,
                    )
                )
            (p1, k1), (p2, k2) = res
            mon.expect(
                not any(n.endswith("_P") for n in k1) and "_P" not in p1,
                f"extended with time reversal:{conv}",
                f"space group {x.sg}: {p1}",
            )
            for n in k1:
                mon.expect(n in k2, f"lost point:{conv}", f"{n} is lost without time reversal")
                mon.close(k1[n], k2[n], 1e-9, f"moved point:{conv}", n)
            if inv:
                mon.count("not extended")
                mon.expect(
                    p1 == p2 and list(k1) == list(k2),
                    f"extended with inversion:{conv}",
                    f"space group {x.sg}: {p2}",
                )
            else:
                mon.count("extended")
                other = "|".join(
                    "-".join(n if n == "GAMMA" else n + "_P" for n in s.split("-"))
                    for s in p1.split("|")
                )
                mon.expect(
                    p2 == p1 + "|" + other,
                    f"extension of the path:{conv}",
                    f"space group {x.sg}: {p1} was extended to {p2}",
                )
                mon.expect(
                    set(k2) == set(k1) | {n + "_P" for n in k1 if n != "GAMMA"},
                    f"extension of the points:{conv}",
                    f"space group {x.sg}: {sorted(k2)}",
                )
                for n in k1:
                    if n == "GAMMA":
                        continue
                    mon.count("points judged")
                    mon.close(
                        np.array(k2[n + "_P"]),
                        -np.array(k1[n]),
                        1e-9,
                        f"opposite point:{conv}",
                        f"{n}_P and -{n}, relative={rel}",
                    )
        mon.state(conv, x.sg, not inv)
    mon.sample(dict(sg=x.sg, inversion=inv, path=p2))
