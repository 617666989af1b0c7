"""C27 - a crystal written to POSCAR is the crystal that is read back."""

import io
import os
import shutil
import tempfile

import numpy as np

import wulfric
from checks.C16 import random_cell
from checks.C24 import ELEMENTS, NOTHING, name_of
from vlib import snap

ID = "C27"
RULE = (
    "crystals with any cell, species given or deduced from names, atoms of one species "
    "scattered over the list, positions inside and outside of the cell, comments with line "
    "breaks, 1-15 decimals, both modes, streams, paths, directories and the default name; what "
    "is read back is compared with what was written within the rounding; state = (mode, "
    "target, species form, decimals)"
)
ASSUMPTIONS = ["the comment has no carriage return"]
REQUIRED = {"round trips": 900, "atoms compared": 4000, "files written again": 200, "refusals observed": 300}
MIN_STATES = 100
COMMENTS = [
    "comment",
    "",
    "  padded  ",
    "two\nlines",
    "\nstart",
    "end\n",
    "a\n\nb\tc",
    "1.0",
    "Direct",
    "3 4 5",
    "Fe O # 12",
    "α β Å",
]


class Sink:
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s


class Source:
    def __init__(self, text):
        self.text = text

    def readlines(self):
        return self.text.splitlines(keepends=True)


def cases(tier, seed):
    for i in range({"quick": 8000, "thorough": 40000}[tier]):
        yield dict(i=i)


def write_and_read(mon, target, folder, args, kwargs):
    """Returns what was read and the text that was written."""
    dump, load = wulfric.io.dump_poscar, wulfric.io.load_poscar
    if target not in ("stream", "object") and mon.rng.random() < 0.4:
        # the files hold something else first, of the same size
        mon.count("files written again")
        cell, atoms = args
        other = np.array(cell) * 1.001
        moved = dict(atoms, positions=np.array(atoms["positions"], dtype=float) + 0.001)
        for name in ("x.vasp", "POSCAR", "some name.vasp"):
            mon.call(dump, other, moved, os.path.join(folder, name), **kwargs)
            mon.call(load, os.path.join(folder, name))
        mon.call(load, folder)
    if target == "stream":
        s = io.StringIO()
        mon.call(dump, *args, s, **kwargs)
        mon.expect(not s.closed, "stream of the caller is closed")
        text = s.getvalue()
        return mon.call(load, io.StringIO(text)), text
    if target == "object":
        s = Sink()
        mon.call(dump, *args, s, **kwargs)
        return mon.call(load, Source(s.text)), s.text
    if target == "handle":
        path = os.path.join(folder, "x.vasp")
        with open(path, "w", encoding="utf-8") as f:
            mon.call(dump, *args, f, **kwargs)
            mon.expect(not f.closed, "stream of the caller is closed")
        with open(path, encoding="utf-8") as f:
            got = mon.call(load, f)
            mon.expect(not f.closed, "stream of the caller is closed")
    elif target == "default":
        path = os.path.join(folder, "POSCAR")
        here = os.getcwd()
        os.chdir(folder)
        try:
            mon.call(dump, *args, **kwargs)
            mon.expect(os.path.isfile(path), "default file", "no POSCAR was written")
            got = mon.call(load)
        finally:
            os.chdir(here)
    else:
        path = os.path.join(folder, "POSCAR" if target == "folder" else "some name.vasp")
        if target == "longer":
            with open(path, "w") as f:
                f.write("0.25 0.25 0.25 old\n" * 400)
        mon.call(dump, *args, path, **kwargs)
        got = mon.call(load, folder if target == "folder" else path)
    with open(path, encoding="utf-8") as f:
        return got, f.read()


def case(mon, spec):
    rng = mon.rng
    n = int(rng.integers(1, 13)) if rng.random() < 0.95 else int(rng.integers(13, 400))
    while True:
        kind, cell = random_cell(rng)
        lengths = np.linalg.norm(cell, axis=1)
        cell = cell * (rng.uniform(3, 12) / lengths.min())
        if np.linalg.cond(cell) < 300:
            break
    pos = rng.uniform(-1, 2, size=(n, 3))
    if rng.random() < 0.3:
        pos = rng.integers(-4, 9, size=(n, 3)) / 4.0
    if rng.random() < 0.1:
        pos = pos * 100
    m = int(rng.integers(1, 5)) if rng.random() < 0.95 else int(rng.integers(5, len(ELEMENTS)))
    pool = [str(x) for x in rng.choice(ELEMENTS, size=m, replace=False)]
    species = [str(rng.choice(pool)) for _ in range(n)]
    atoms = {"positions": pos.copy() if rng.random() < 0.5 else pos.tolist()}
    how = ["names", "species", "both"][int(rng.integers(3))]
    if how != "species":
        atoms["names"] = [name_of(rng, s) for s in species]
    if how != "names":
        atoms["species"] = list(species)
    if how == "both":  # names say something else: the species are what counts
        atoms["names"] = [f"{x}{i}" for i, x in enumerate(rng.permutation(species))]
        if rng.random() < 0.3:
            atoms["names"] = [str(rng.choice(NOTHING)) for _ in species]
    if rng.random() < 0.3:
        atoms["magmom"] = rng.normal(size=(n, 3)).tolist()
    if rng.random() < 0.5:
        atoms = {k: atoms[k] for k in reversed(list(atoms))}
    kwargs = {}
    mode = "Direct"
    if rng.random() < 0.7:
        mode = kwargs["mode"] = str(rng.choice(["Direct", "Cartesian"]))
    dec = 8
    if rng.random() < 0.7:
        dec = kwargs["decimals"] = int(rng.integers(3, 16))
    comment = None
    if rng.random() < 0.7:
        comment = kwargs["comment"] = COMMENTS[int(rng.integers(len(COMMENTS)))]
    c_in = cell.copy() if rng.random() < 0.6 else cell.tolist()
    before = snap.freeze((c_in, atoms))
    target = ["stream", "object", "handle", "default", "path", "longer", "folder"][
        int(rng.integers(7))
    ]
    folder = tempfile.mkdtemp(prefix="verif-poscar-")
    try:
        got, text = write_and_read(mon, target, folder, (c_in, atoms), kwargs)
        mon.expect(before == snap.freeze((c_in, atoms)), "input was modified", f"{how} {mode}")
        mon.expect(isinstance(got, tuple) and len(got) == 3, "form of the result")
        c2, a2, com2 = got
        half = 0.5 * 10.0**-dec
        # ---------------------------------------------------------------------- comment
        if comment is not None:
            mon.expect(
                com2 == comment.replace("\n", " ").strip(), "comment", f"{comment!r} -> {com2!r}"
            )
        else:
            mon.expect(isinstance(com2, str) and com2 != "", "default comment", repr(com2))
        # ------------------------------------------------------------------------- cell
        mon.expect(isinstance(c2, np.ndarray) and c2.shape == (3, 3), "form of the cell")
        mon.close(c2, cell, half * 1.001 + 1e-14 * (1 + np.abs(cell).max()), "cell", f"{mode} {dec}")
        # ------------------------------------------------------------------------ atoms
        names = list(a2["names"])
        p2 = np.array(a2["positions"], dtype=float)
        mon.expect(
            len(names) == n and p2.shape == (n, 3),
            "number of atoms",
            f"{n} atoms, read {len(names)} names and positions {p2.shape}",
        )
        mon.expect(sorted(names) == sorted(species), "species", f"{species} -> {names}")
        order = [i for s in dict.fromkeys(names) for i in range(n) if species[i] == s]
        mine = [i for s in dict.fromkeys(names) for i in range(n) if names[i] == s]
        if mode == "Direct":
            tol = half * 1.001 + 1e-14 * (1 + np.abs(pos).max())
            mon.close(p2[mine], pos[order], tol, "positions:Direct", f"{how} {dec}")
        else:
            tol = half * 1.001 + 1e-12 * (1 + np.abs(pos @ cell).max())
            mon.close(
                p2[mine] @ c2, pos[order] @ cell, tol, "positions:Cartesian", f"{how} {dec}"
            )
        mon.count("atoms compared", n)
        # ------------------------------------------------------- written again, the same
        s = io.StringIO()
        mon.call(
            wulfric.io.dump_poscar, c2, dict(a2, species=list(names)), s, mode=mode, decimals=dec
        )
        c3, a3, _ = mon.call(wulfric.io.load_poscar, io.StringIO(s.getvalue()))
        mon.close(c3, c2, 1e-12 * (1 + np.abs(c2).max()), "cell after the second round trip")
        k2 = np.lexsort((np.arange(n), np.array(names)))
        k3 = np.lexsort((np.arange(n), np.array(a3["names"])))
        mon.expect(sorted(a3["names"]) == sorted(names), "species after the second round trip")
        mon.close(
            np.array(a3["positions"])[k3],
            p2[k2],
            1e-9 * (1 + np.abs(p2).max()) if mode == "Cartesian" else 1e-12 * (1 + np.abs(p2).max()),
            "positions after the second round trip",
            f"{mode} {dec}",
        )
        mon.count("round trips")
        mon.state(mode, target, how, dec)
        # -------------------------------------------------------------------- refusals
        if rng.random() < 0.4:
            for m in ("direct", "Fractional", "", "CARTESIAN", "d"):
                mon.refuses(
                    ValueError, wulfric.io.dump_poscar, c_in, atoms, io.StringIO(), mode=m
                )
            bad = dict(positions=pos, names=[name_of(rng, x) for x in species])
            bad["names"][int(rng.integers(n))] = str(rng.choice(NOTHING))
            mon.refuses(ValueError, wulfric.io.dump_poscar, c_in, bad, io.StringIO(), mode=mode)
            # what is refused does not cost the file that was there
            path = os.path.join(folder, "kept")
            with open(path, "w") as f:
                f.write(text)
            mon.refuses(ValueError, wulfric.io.dump_poscar, c_in, bad, path)
            mon.refuses(ValueError, wulfric.io.dump_poscar, c_in, atoms, path, mode="cart")
            with open(path) as f:
                mon.expect(f.read() == text, "refused call overwrote the file")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    mon.sample(dict(mode=mode, target=target, text=text[:300]))
