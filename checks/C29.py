"""C29 - what is drawn is the geometry that was given."""

import re

import numpy as np

import wulfric
from vlib import plots, snap

ID = "C29"
RULE = (
    "histories of 1-5 random drawing calls (all kinds, shifts, colors, labels, legends, groups, "
    "subplots) on one figure; the traces that each call adds are decoded to segments, markers, "
    "arrows, texts and legend entries, which are compared as sets with the geometry of the "
    "arguments; state = (kind, options given)"
)
ASSUMPTIONS = [
    "edges of Wigner-Seitz cells and Brillouin zones are the ones of C18",
    "names of points differ",
]
REQUIRED = {
    "calls judged": 500,
    "segments compared": 2000,
    "markers compared": 4000,
    "arrows compared": 100,
    "hover texts compared": 500,
}
MIN_STATES = 60


def cases(tier, seed):
    for i in range({"quick": 400, "thorough": 7000}[tier]):
        yield dict(i=i)


def same_sets(mon, got, want, tol, mechanism, note):
    """Two collections of points (rows of numbers) are equal as sets."""
    got = np.array([np.ravel(g) for g in got])
    want = np.array([np.ravel(w) for w in want])
    if not len(got) or not len(want):
        mon.expect(len(got) == len(want), mechanism, f"{len(got)} instead of {len(want)}. {note}")
        return
    d = np.abs(got[:, None] - want[None]).max(axis=2)
    mon.expect(d.min(axis=1).max() <= tol, mechanism, f"drawn, but not asked for. {note}")
    mon.expect(d.min(axis=0).max() <= tol, mechanism, f"asked for, but not drawn. {note}")


def both(segs):
    return [np.concatenate(x) for p, q in segs for x in ((p, q), (q, p))]


def numbers(s):
    return [float(x) for x in re.findall(r"[-+]?\d+\.\d+(?:[eE][-+]?\d+)?", s)]


def judge(mon, traces, e, kw, scene, note):
    pic = plots.Picture(traces)
    kind = e.kind
    tol = 1e-7
    mon.expect(len(traces) > 0, f"nothing is drawn:{kind}", note)
    mon.expect(pic.scenes == {scene}, f"subplot:{kind}", f"{pic.scenes}, not {scene}. {note}")
    # ---------------------------------------------------------------------------- legend
    label = kw.get("legend_label")
    want = [] if label is None else [label]
    mon.expect(pic.legend == want, f"legend:{kind}", f"{pic.legend} instead of {want}. {note}")
    groups = set(pic.groups)
    mon.expect(
        len(groups) == 1 and None not in groups, f"groups of the legend:{kind}", f"{groups}. {note}"
    )
    if "legend_group" in kw:
        mon.expect(groups == {kw["legend_group"]}, f"group:{kind}", f"{groups}. {note}")
    # -------------------------------------------------------------------------- segments
    same_sets(
        mon,
        both([s[:2] for s in pic.segments]),
        both(e.segments),
        tol,
        f"segments:{kind}",
        note,
    )
    mon.count("segments compared", len(e.segments))
    # -------------------------------------------------------------------------- markers
    mon.expect(
        len(pic.markers) == len(e.markers),
        f"number of markers:{kind}",
        f"{len(pic.markers)} instead of {len(e.markers)}. {note}",
    )
    left = list(pic.markers)
    for at, color, text, hover in e.markers:
        near = [m for m in left if np.abs(m["at"] - at).max() <= tol]
        mon.expect(len(near) > 0, f"markers:{kind}", f"no marker at {at}. {note}")
        fit = [
            m
            for m in near
            if (color is None or m["color"] == color) and (text is None or m["text"] == text)
        ]
        mon.expect(
            len(fit) > 0,
            f"color and text of the marker:{kind}",
            f"{[(m['color'], m['text']) for m in near]} instead of {color}, {text}. {note}",
        )
        m = fit[0]
        left = [x for x in left if x is not m]
        if kind == "atoms" and text is not None:
            mon.expect(
                str(m["tcolor"]).lower() != str(m["color"]).lower(),
                "text of the atom is not readable",
                f"{m['tcolor']} on {m['color']}",
            )
        if hover:
            mon.expect("text" in m["shown"], f"hover is off:{kind}", note)
            lines = re.split("<br>", m["hover"])
            for title, value in hover:
                mine = [x for x in lines if x.startswith(f"{title}:")]
                mon.expect(len(mine) == 1, f"hover:{kind}:{title}", f"{lines}. {note}")
                if isinstance(value, str):
                    mon.expect(
                        mine[0][len(title) + 1 :].strip() == value.strip(),
                        f"hover:{kind}:{title}",
                        f"{mine} instead of {value}. {note}",
                    )
                else:
                    mon.close(
                        numbers(mine[0][len(title) :]),
                        value,
                        6e-5,
                        f"hover:{kind}:{title}",
                        f"{mine}. {note}",
                    )
            mon.count("hover texts compared")
        elif kind == "atoms":
            mon.expect(m["shown"] == "none", "hover is on", note)
    mon.count("markers compared", len(e.markers))
    # --------------------------------------------------------------------------- arrows
    mon.expect(
        len(pic.arrows) == len(e.arrows),
        f"number of arrows:{kind}",
        f"{len(pic.arrows)} instead of {len(e.arrows)}. {note}",
    )
    unit = lambda u: u / np.linalg.norm(u)
    same_sets(
        mon,
        [np.concatenate((p, unit(u))) for p, u, _ in pic.arrows],
        [np.concatenate((q, unit(q - p))) for p, q in e.arrows],
        tol,
        f"arrows:{kind}",
        note,
    )
    mon.count("arrows compared", len(e.arrows))
    # --------------------------------------------------------------------------- labels
    mon.expect(
        sorted(str(t) for _, t, _ in pic.labels) == sorted(t for _, _, t in e.labels),
        f"texts:{kind}",
        f"{[t for _, t, _ in pic.labels]}. {note}",
    )
    for p, q, text in e.labels:
        at = [x for x, t, _ in pic.labels if t == text]
        u = q - p
        s = [float((x - p) @ u / (u @ u)) for x in at]
        off = [np.abs(x - p - k * u).max() for x, k in zip(at, s)]
        mon.expect(
            any(1 <= k <= 1.6 and o <= tol for k, o in zip(s, off)),
            f"label of the vector:{kind}",
            f"{text} at {at}, the vector ends at {q}. {note}",
        )
    # --------------------------------------------------------------------------- colors
    if e.color is not None:
        used = {c for _, _, c in pic.segments} | {c for _, _, c in pic.labels}
        used |= {c for _, _, cs in pic.arrows for c in cs}
        mon.expect(used <= {e.color}, f"color:{kind}", f"{used} instead of {e.color}. {note}")
    mon.count("calls judged")
    return groups


def case(mon, spec):
    rng = mon.rng
    rows, cols = (1, 1) if rng.random() < 0.5 else (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    grid = dict(rows=rows, cols=cols) if (rows, cols) != (1, 1) or rng.random() < 0.5 else {}
    pe = mon.call(wulfric.PlotlyEngine, **grid)
    free = set()
    for step in range(int(rng.integers(1, 6))):
        kind = plots.KINDS[(spec["i"] + step) % len(plots.KINDS)]
        if kind in ("wigner", "zone") and step and rng.random() < 0.7:
            kind = "line"
        method, args, kw, e = plots.random_call(rng, kind)
        if rng.random() < 0.5:
            kw["legend_label"] = str(rng.choice(["label", "other", "a b"]))
        if rng.random() < 0.3:
            kw["legend_group"] = str(rng.choice(["g1", "g2"]))
        r, c = int(rng.integers(1, rows + 1)), int(rng.integers(1, cols + 1))
        if (r, c) != (1, 1) or rng.random() < 0.3:
            kw.update(row=r, col=c)
        k = (r - 1) * cols + c
        scene = "scene" if k == 1 else f"scene{k}"
        note = f"{method} {sorted(kw)} {kw}"[:500]
        plain = [a for a in args if not isinstance(a, wulfric.Kpoints)]
        before = snap.freeze((plain, kw))
        old = [id(t) for t in pe.fig.data]
        n = len(pe.fig.data)
        mon.call(getattr(pe, method), *args, **kw)
        mon.expect(snap.freeze((plain, kw)) == before, f"arguments were modified:{kind}", note)
        mon.expect(
            [id(t) for t in pe.fig.data][:n] == old, f"earlier drawings changed:{kind}", note
        )
        g = judge(mon, pe.fig.data[n:], e, kw, scene, note)
        if "legend_group" not in kw:
            mon.expect(not (g & free), f"groups of two calls coincide:{kind}", note)
            free |= g
        mon.state(kind, *sorted(k for k in kw if k not in ("row", "col")))
        mon.sample(dict(call=method, options=sorted(kw), segments=len(e.segments), markers=len(e.markers)))
