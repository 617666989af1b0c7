"""C28 - a POSCAR file is read as the format defines it."""

import io
import os
import shutil
import tempfile

import numpy as np

import wulfric
from checks.C16 import random_cell
from checks.C24 import ELEMENTS
from checks.C27 import Source

ID = "C28"
RULE = (
    "texts of POSCAR files generated from the definition of the format: one, three and "
    "negative scale factors, with and without the line of species, blocks of one species "
    "repeated, selective dynamics with flags, every spelling of the mode, extra columns and "
    "blocks, several number formats and line ends; what is read is compared with the crystal "
    "the text was made from; state = (scale, species, selective, mode, source)"
)
ASSUMPTIONS = ["mode and selective dynamics are recognised by the first character of the line"]
REQUIRED = {"files judged": 1200, "atoms compared": 5000, "refusals observed": 600}
MIN_STATES = 150


def cases(tier, seed):
    for i in range({"quick": 10000, "thorough": 60000}[tier]):
        yield dict(i=i)


def number(rng, x):
    k = int(rng.integers(4))
    if k == 0:
        s = f"{x:.12f}"
    elif k == 1:
        s = f"{x:.14e}"
    elif k == 2:
        s = f"{x:+.13E}"
    else:
        s = repr(float(x))
    if float(x).is_integer() and rng.random() < 0.3:
        s = f"{int(x)}"
    return s


def line(rng, xs, tail=""):
    sep = [" ", "   ", "\t"][int(rng.integers(3))]
    return ["", "  ", "\t"][int(rng.integers(3))] + sep.join(number(rng, x) for x in xs) + tail


def case(mon, spec):
    rng = mon.rng
    load = wulfric.io.load_poscar
    while True:
        _, raw = random_cell(rng)
        raw = raw * (rng.uniform(0.8, 8) / np.linalg.norm(raw, axis=1).min())
        if np.linalg.cond(raw) < 300:
            break
    lines = [["comment", "  some Fe2 O3 ", "", "1.0", "Direct"][int(rng.integers(5))]]
    comment = lines[0].strip()
    # ---------------------------------------------------------------------------- scale
    scale = ["one", "positive", "volume", "three"][int(rng.integers(4))]
    if scale == "one":
        f = np.ones(3)
        lines.append(["1.0", "1", "  1.00000 ", "1e0"][int(rng.integers(4))])
    elif scale == "positive":
        s = float(rng.uniform(0.2, 6))
        f = np.ones(3) * s
        lines.append(line(rng, [s]))
    elif scale == "volume":
        v = float(rng.uniform(5, 900))
        f = np.ones(3) * np.cbrt(v / abs(np.linalg.det(raw)))
        lines.append(line(rng, [-v]))
    else:
        f = rng.uniform(0.2, 6, size=3)
        lines.append(line(rng, f))
    cell = raw * f  # components x, y, z of every vector
    for v in raw:
        lines.append(line(rng, v))
    # -------------------------------------------------------------------------- species
    blocks = int(rng.integers(1, 6)) if rng.random() < 0.96 else int(rng.integers(6, 60))
    counts = [int(x) for x in rng.integers(1, 6, size=blocks)]
    if rng.random() < 0.05:
        counts[int(rng.integers(blocks))] = int(rng.choice([12, 130, 1100]))
    pool = [str(x) for x in rng.choice(ELEMENTS, size=blocks, replace=False)]
    sp = "distinct"
    if blocks > 1 and rng.random() < 0.3:
        pool[-1] = pool[0]
        sp = "repeated"
    if rng.random() < 0.3:
        sp = "none"
        pool = [f"X{i + 1}" for i in range(blocks)]
    else:
        lines.append("  ".join([""] * int(rng.integers(2)) + pool))
    names = [p for p, c in zip(pool, counts) for _ in range(c)]
    lines.append(" " * int(rng.integers(3)) + "  ".join(map(str, counts)))
    n = len(names)
    # ------------------------------------------------------------- selective and mode
    selective = rng.random() < 0.4
    if selective:
        lines.append(
            ["Selective dynamics", "selective", "S", "s", "Sel"][int(rng.integers(5))]
        )
    cart = rng.random() < 0.5
    if cart:
        m = ["Cartesian", "cartesian", "C", "c", "K", "k", "Kartesisch", "CART"]
    else:
        m = ["Direct", "direct", "D", "d", "Fractional", "Reduced"]
    mode = m[int(rng.integers(len(m)))]
    lines.append(mode + ["", " ", " coordinates"][int(rng.integers(3))])
    # ------------------------------------------------------------------------ positions
    pos = rng.uniform(-1, 2, size=(n, 3))
    if rng.random() < 0.3:
        pos = rng.integers(-4, 9, size=(n, 3)) / 4.0
    if cart:  # numbers of the file, before the scale
        written = pos @ cell / f
    else:
        written = pos
    extra = ["", "flags", "comment"][int(rng.integers(3))]
    for i in range(n):
        tail = ""
        if selective:
            tail = "  " + " ".join(rng.choice(["T", "F"], size=3))
        if extra == "comment":
            tail += f"  {names[i]} # {i} 0.5"
        elif extra == "flags" and not selective:
            tail += " 0.25 0.125"
        lines.append(line(rng, written[i], tail))
    after = ["", "blank", "velocities", "no end"][int(rng.integers(4))]
    if after == "blank":
        lines += ["", "  ", ""]
    if after == "velocities":
        lines += [""] + [line(rng, v) for v in rng.normal(size=(n, 3))]
    crlf = rng.random() < 0.15
    text = ("\r\n" if crlf else "\n").join(lines) + ("" if after == "no end" else "\n")
    # ----------------------------------------------------------------------------- read
    source = ["stream", "object", "path", "folder", "default", "handle"][int(rng.integers(6))]
    folder = tempfile.mkdtemp(prefix="verif-poscar-")
    try:
        path = os.path.join(
            folder, "POSCAR" if source in ("folder", "default") else "a file.poscar"
        )
        with open(path, "w", encoding="utf-8", newline="") as h:
            h.write(text)
        if source == "stream":
            got = mon.call(load, io.StringIO(text))
        elif source == "object":
            got = mon.call(load, Source(text))
        elif source == "handle":
            with open(path, encoding="utf-8") as h:
                got = mon.call(load, h)
        elif source == "default":
            here = os.getcwd()
            os.chdir(folder)
            try:
                got = mon.call(load)
                os.unlink(path)
                mon.refuses(FileNotFoundError, load)
            finally:
                os.chdir(here)
        else:
            got = mon.call(load, folder if source == "folder" else path)
            mon.refuses(FileNotFoundError, load, os.path.join(folder, "nothing"))
            os.unlink(path)
            mon.refuses(FileNotFoundError, load, folder)
        with open(os.path.join(folder, "again"), "w", newline="") as h:
            h.write(text)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    note = f"scale {scale}, species {sp}, {mode}, selective {selective}\n{text[:500]}"
    c2, a2, com2 = got
    mon.expect(com2 == comment, "comment", f"{comment!r} -> {com2!r}")
    size = np.abs(cell).max()
    mon.expect(isinstance(c2, np.ndarray), "form of the cell")
    mon.close(c2, cell, 1e-9 * (1 + size), f"cell:{scale}", note)
    mon.expect(list(a2["names"]) == names, f"names:{sp}", f"{a2['names']}\n{note}")
    mon.close(
        np.array(a2["positions"], dtype=float),
        pos,
        1e-7,
        f"positions:{'Cartesian' if cart else 'Direct'}:{scale}",
        note,
    )
    mon.count("atoms compared", n)
    mon.count("files judged")
    mon.state(scale, sp, "S" if selective else "-", mode[0], source, extra, after)
    # ------------------------------------------------------------------------- refusals
    if rng.random() < 0.3:
        for bad in (
            [1.0, 2.0],
            [1.0, 1.0, 1.0, 1.0],
            [1.0, -1.0, 2.0],
            [-1.0, -1.0, -1.0],
            [1.0, 0.0, 1.0],
        ):
            wrong = list(lines)
            wrong[1] = line(rng, bad)
            mon.refuses(ValueError, load, io.StringIO("\n".join(wrong)))
    mon.sample(dict(scale=scale, species=sp, mode=mode, text=text[:200]))
