"""C30 - the axes show everything that was drawn, undistorted."""

import base64
import json
import os
import shutil
import tempfile

import numpy as np

import wulfric
from vlib import plots

ID = "C30"
RULE = (
    "histories of drawing calls with show and save in between; after each of them the ranges "
    "of the axes of every used subplot are compared with all coordinates its traces draw; "
    "saved pages are parsed and their data compared with the figure; state = (grid, kinds)"
)
ASSUMPTIONS = ["the figure is drawn by this engine only"]
REQUIRED = {
    "figures judged": 500,
    "coordinates inside": 5000,
    "saved pages judged": 100,
    "refusals observed": 500,
}
MIN_STATES = 60
POSITIONS = ["top", "bottom", "left", "right"]
LIGHT = [k for k in plots.KINDS if k not in ("wigner", "zone")]


def cases(tier, seed):
    for i in range({"quick": 800, "thorough": 12000}[tier]):
        yield dict(i=i)


def array(x):
    if isinstance(x, dict):
        a = np.frombuffer(base64.b64decode(x["bdata"]), dtype=np.dtype(x["dtype"]))
        return a.astype(float)
    return np.array([np.nan if v is None else v for v in x], dtype=float)


def saved(path):
    """Data and layout of the page."""
    text = open(path, encoding="utf-8").read()
    at = text.index("Plotly.newPlot(")
    dec = json.JSONDecoder()
    data = text.index("[", at)
    d, end = dec.raw_decode(text, data)
    lay, _ = dec.raw_decode(text, text.index("{", end))
    return d, lay, len(text)


def judge(mon, fig, used, visible, position, extra, note):
    pic = plots.Picture(fig.data)
    layout = fig.layout
    for scene in used:
        s = layout[scene]
        coords = np.array([p for p, w in pic.coords if w == scene])
        rng_, span = [], []
        for j, ax in enumerate((s.xaxis, s.yaxis, s.zaxis)):
            mon.expect(ax.range is not None and len(ax.range) == 2, "no range", f"{scene} {note}")
            lo, hi = map(float, ax.range)
            x = coords[:, j]
            mon.expect(
                lo <= x.min() + 1e-9 and hi >= x.max() - 1e-9,
                "drawn outside of the axes",
                f"{scene} axis {j}: data {x.min()} - {x.max()}, range {lo} - {hi}. {note}",
            )
            mon.expect(lo < hi, "empty range", f"{scene} {lo} {hi} {note}")
            w = x.max() - x.min()
            room = 0.25 * w if w > 1e-9 else 2.0
            mon.expect(
                x.min() - lo <= room + 1e-6 and hi - x.max() <= room + 1e-6,
                "range is much larger than the data",
                f"{scene} axis {j}: data {x.min()} - {x.max()}, range {lo} - {hi}. {note}",
            )
            mon.count("coordinates inside", len(x))
            span.append(hi - lo)
            if not visible:
                mon.expect(ax.visible is False, "axes are visible", f"{scene} {note}")
        a = s.aspectratio
        a = np.array([a.x, a.y, a.z], dtype=float)
        span = np.array(span)
        mon.expect(s.aspectmode == "manual", "aspect mode", f"{scene} {s.aspectmode}")
        mon.close(
            a / a.max(), span / span.max(), 1e-6, "distorted", f"{scene} {a} for spans {span}. {note}"
        )
    leg = layout.legend
    where = position.lower()
    ok = {
        "top": leg.y == 1 and leg.yanchor == "bottom" and leg.xanchor == "center" and leg.x == 0.5,
        "bottom": leg.y == 0 and leg.yanchor == "top" and leg.xanchor == "center" and leg.x == 0.5,
        "left": leg.x == 0 and leg.xanchor == "right" and leg.yanchor == "middle" and leg.y == 0.5,
        "right": leg.x == 1 and leg.xanchor == "left" and leg.yanchor == "middle" and leg.y == 0.5,
    }[where]
    mon.expect(ok, f"legend position:{where}", f"{leg}. {note}")
    if "width" in extra:
        mon.expect(layout.width == extra["width"], "layout options", note)
    mon.count("figures judged")


def case(mon, spec):
    rng = mon.rng
    rows, cols = (1, 1) if rng.random() < 0.5 else (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    grid = dict(rows=rows, cols=cols) if (rows, cols) != (1, 1) or rng.random() < 0.5 else {}
    pe = mon.call(wulfric.PlotlyEngine, _sphinx_gallery_fix=True, **grid)
    used, kinds = set(), []
    visible = bool(rng.random() < 0.7)
    folder = tempfile.mkdtemp(prefix="verif-plot-")
    try:
        for step in range(int(rng.integers(1, 4))):
            for _ in range(int(rng.integers(1, 4))):
                kind = LIGHT[int(rng.integers(len(LIGHT)))]
                if spec["i"] % 20 == 0 and not kinds:
                    kind = "zone" if spec["i"] % 40 else "wigner"
                method, args, kw, e = plots.random_call(rng, kind)
                if rng.random() < 0.4:
                    kw["legend_label"] = "label"
                if kind == "points" and rng.random() < 0.3:
                    p = np.array(args[0], dtype=float)
                    p[:, int(rng.integers(3))] = 1.5  # flat
                    args = (p,)
                r, c = int(rng.integers(1, rows + 1)), int(rng.integers(1, cols + 1))
                kw.update(row=r, col=c)
                k = (r - 1) * cols + c
                used.add("scene" if k == 1 else f"scene{k}")
                mon.call(getattr(pe, method), *args, **kw)
                kinds.append(kind)
            note = f"after {kinds} on {rows}x{cols}"
            position = str(rng.choice(POSITIONS))
            position = [position, position, position.upper(), position.title()][int(rng.integers(4))]
            opts = {} if position == "top" and rng.random() < 0.5 else dict(legend_position=position)
            if not visible:
                opts["axes_visible"] = False
            extra = dict(width=int(rng.integers(300, 900))) if rng.random() < 0.4 else {}
            if rng.random() < 0.7:
                fig = mon.call(pe.show, **opts, **extra)
                mon.expect(fig is pe.fig, "returned figure", "")
            else:
                out = dict(kwargs_write_html=dict(include_plotlyjs=False))
                path = os.path.join(folder, "wulfric-plot.html")
                if rng.random() < 0.5:
                    path = os.path.join(folder, "other name.html")
                    mon.call(pe.save, path, **opts, **extra, **out)
                else:
                    here = os.getcwd()
                    os.chdir(folder)
                    try:
                        mon.call(pe.save, **opts, **extra, **out)
                    finally:
                        os.chdir(here)
                mon.expect(os.path.isfile(path), "no file was saved", os.path.basename(path))
                data, lay, size = saved(path)
                mon.expect(size < 2_000_000, "options of write_html are ignored", f"{size}")
                mon.expect(len(data) == len(pe.fig.data), "traces of the page", f"{len(data)}")
                for t, f in zip(data, pe.fig.data):
                    for ax in "xyz":
                        mon.close(
                            array(t[ax]), np.array(f[ax], dtype=float), 1e-9, "data of the page", note
                        )
                for s in used:
                    for ax in ("xaxis", "yaxis", "zaxis"):
                        r = lay[s][ax]["range"]
                        mon.close(
                            array(r), array(list(pe.fig.layout[s][ax].range)), 1e-9, "range of the page"
                        )
                mon.count("saved pages judged")
            judge(mon, pe.fig, used, visible, position, extra, note)
        for bad in ("center", "", "top left"):
            mon.refuses(ValueError, pe.show, legend_position=bad)
            mon.refuses(
                ValueError, pe.save, os.path.join(folder, "x.html"), legend_position=bad
            )
        mon.expect(not os.path.exists(os.path.join(folder, "x.html")), "refused, but saved", "")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    mon.state(rows, cols, *sorted(set(kinds)))
    mon.sample(dict(kinds=kinds, grid=[rows, cols], used=sorted(used)))
