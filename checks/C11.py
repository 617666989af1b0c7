"""C11 - recommended paths are the published ones and can be followed and plotted."""

import numpy as np

import wulfric
from vlib import gen, kobs, published, workload
from wulfric.constants import HS_PLOT_NAMES

ID = "C11"
RULE = (
    "crystals of all 230 space groups; each returned path is parsed with an independent "
    "parser, compared with the published path, and each point it visits has to be defined, "
    "to have a label for plots and to be distinct from the next one; state = (convention, "
    "symbol, time reversal)"
)
ASSUMPTIONS = ["labels are compared with the names by a rule (Greek letters, index, prime)"]
REQUIRED = {"paths judged": 3500, "labels judged": 3000, "segments judged": 20000}
MIN_STATES = 54


def cases(tier, seed):
    yield from kobs.specs(tier, 1, 8, (6, 80))


def expected_label(name):
    """Greek letters and primes as LaTeX, index in the subscript."""
    prime = name.endswith("_P")
    base = name[:-2] if prime else name
    letters = base.rstrip("0123456789")
    index = base[len(letters):]
    greek = dict(
        GAMMA=r"\Gamma", SIGMA=r"\Sigma", DELTA=r"\Delta", LAMBDA=r"\Lambda"
    )  # fmt: skip
    sub = f"_{index}" if index else ""
    sup = r"^{\prime}" if prime else ""
    if letters in greek:
        return f"${greek[letters]}{sub}{sup}$"
    return f"{letters}${sub}{sup}$" if sub or sup else letters


def normal(label):
    return label.replace("$", "").replace("{", "").replace("}", "").replace(" ", "")


def case(mon, spec):
    x, atoms = kobs.crystal(mon, spec)
    own = workload.own_data(mon, x, atoms)
    for conv in ("HPKOT", "SC"):
        if conv == "HPKOT":
            syms = kobs.hpkot_frame(mon, x, atoms, **own)[3]
            paths = published.HPKOT_PATHS
        else:
            syms = kobs.sc_frame(mon, x, atoms, **kobs.own_tolerances(own))[3]
            paths = published.SC_PATHS
            if "ValueError" in syms:
                continue
        for tr in (True, False):
            path, pts = mon.call(
                wulfric.kpoints.get_path_and_points,
                x.cell,
                atoms,
                convention=conv,
                relative=bool(mon.rng.random() < 0.5),
                with_time_reversal=tr,
                **own,
            )
            mon.count("paths judged")
            mon.expect(isinstance(path, str), "type", f"path is {type(path)}")
            subs = [s.split("-") for s in path.split("|")]
            mon.expect(
                mon.call(wulfric.kpoints.get_path_as_list, path) == subs,
                "parsed",
                f"{path} is not read back",
            )
            ok = [
                s
                for s in syms
                if path == paths[s] or (not tr and path.startswith(paths[s] + "|"))
            ]
            mon.expect(
                ok,
                f"published path:{conv}:{min(syms)}",
                f"{conv} {sorted(syms)}: path {path}, published {paths[min(syms)]}",
                cell=x.cell,
                atoms=atoms,
            )
            for s in subs:
                mon.expect(len(s) > 1, f"subpath:{conv}", f"{path}")
                for p in s:
                    mon.expect(
                        p in pts,
                        f"undefined point:{conv}:{ok[0]}",
                        f"{p} of the path {path} is not among the points {sorted(pts)}",
                    )
                for p, q in zip(s, s[1:]):
                    mon.count("segments judged")
                    mon.expect(
                        np.abs(np.array(pts[p]) - np.array(pts[q])).max() > 1e-6
                        or len(syms) > 1
                        or x.kind not in ("plain", "scrambled", "left"),
                        f"empty segment:{conv}:{ok[0]}",
                        f"{p}-{q} has no length",
                    )
            for p in pts:
                mon.expect(
                    p in HS_PLOT_NAMES, f"no label:{p}", f"point {p} does not have a label"
                )
                mon.expect(
                    normal(HS_PLOT_NAMES[p]) == normal(expected_label(p)),
                    f"label:{p}",
                    f"label of {p} is {HS_PLOT_NAMES[p]}",
                )
            if mon.rng.random() < 0.5:
                kp = mon.call(
                    wulfric.Kpoints.from_crystal,
                    x.cell,
                    atoms,
                    convention=conv,
                    with_time_reversal=tr,
                    n=int(mon.rng.integers(0, 5)),
                    **own,
                )
                mon.expect(kp.path == subs, "Kpoints path", f"{kp.path} instead of {path}")
                mon.expect(
                    mon.call(getattr, kp, "path_string") == path, "Kpoints path string", ""
                )
                mon.expect(
                    set(kp.hs_names) == set(pts)
                    and all(kp.hs_labels[p] == HS_PLOT_NAMES[p] for p in pts),
                    "Kpoints labels",
                    "labels of the points of Kpoints",
                )
                lab = mon.call(getattr, kp, "labels")
                want = [HS_PLOT_NAMES[subs[0][0]]]
                for i, s in enumerate(subs):
                    if i:
                        want[-1] += "|" + HS_PLOT_NAMES[s[0]]
                    want += [HS_PLOT_NAMES[p] for p in s[1:]]
                mon.expect(list(lab) == want, "axis labels", f"{lab} for {path}")
                mon.count("labels judged", len(lab))
            mon.state(conv, ok[0], tr)
    mon.sample(dict(sg=x.sg, path=path))
