"""C36 - a call leaves the process as it found it, also when it is refused or interrupted."""

import gc
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np

import wulfric
from checks import C31, C35
from vlib import other, process, snap
from vlib.core import HarnessError

ID = "C36"
RULE = (
    "random calls of all public functions (refused calls, drawings, pages, POSCAR files included), "
    "a third of them interrupted before a random line of the library; pictures of the settings "
    "of the process before and after each call, an audit hook that records files, processes, "
    "sockets and environment, standard streams, open files, threads, content of the "
    "directories and the arguments after it; interrupted calls are repeated "
    "and compared with a process where nothing was interrupted; state = (function, how the call ended)"
)
ASSUMPTIONS = [
    "drawing may use random numbers of python (not of numpy) for names of legend groups",
    "an interrupted call may leave a part of the file it was writing",
    "spglib writes its own messages to the error stream of the process; those are not judged",
]
REQUIRED = {
    "calls judged": 6500,
    "settings compared": 140000,
    "arguments compared": 5500,
    "refused calls judged": 500,
    "interrupted calls judged": 1000,
    "results after interruptions compared": 800,
    "audit events observed": 800,
    "files written": 150,
    "directories judged": 250,
}
MIN_STATES = 120
ROOT = os.path.dirname(os.path.abspath(wulfric.__file__))
CASE_CPU_LIMIT = 150


def cases(tier, seed):
    for i in range({"quick": 200, "thorough": 2000}[tier]):
        yield dict(i=i)


def page(rng, folder):
    """Drawings that are saved."""
    path = os.path.join(folder, f"page {int(rng.integers(3))}.html")
    name, values, kw = list(C31.drawings(rng, False))[0]

    def f(values, kw):
        pe = wulfric.PlotlyEngine()
        getattr(pe, name)(*values, legend_group="g", **kw)
        pe.save(path, kwargs_write_html=dict(include_plotlyjs=False))

    return "save", f, (list(values), kw), {}, [path]


def poscar(rng, folder):
    """A file that is written and read, or damaged and read."""
    c, a = C31.cell(rng), C31.atoms(rng, "positions", "species")
    path = os.path.join(folder, str(rng.choice(["POSCAR", "a.vasp", "x"])))
    how = str(rng.choice(["good", "good", "short", "broken", "folder"]))

    def f(c, a):
        wulfric.io.dump_poscar(c, a, path)
        if how == "good":
            wulfric.io.load_poscar(path)
        elif how == "folder":
            wulfric.io.load_poscar(folder)
        elif how == "broken":
            wulfric.io.dump_poscar(c, dict(positions=a["positions"], names=["?"]), path)

    if how == "short":
        with open(path, "w") as g:
            g.write("comment\n1.0\n1 0 0\n0 1 0\n0 0 nothing\nH\n1\nDirect\n0 0 0\n")

        def f(c, a):  # noqa: F811
            wulfric.io.load_poscar(path)

    return "POSCAR", f, (c, a), {}, [path]


def rare(rng):
    """Ways through the library that are seldom taken."""
    c, a = C31.crystal(rng)
    n = len(a["positions"].v)
    k = int(rng.integers(9))
    if k == 0:
        return "get_atom_species", wulfric.crystal.get_atom_species, (f"{rng.integers(99)}?",), {}
    if k == 1:
        kw = dict(raise_on_fail=bool(rng.random() < 0.3))
        return "get_atoms_species", wulfric.crystal.get_atoms_species, (dict(names=["1", "Cr"]),), kw
    if k == 2:
        a = {q: v for q, v in a.items() if q in ("positions", "species", "names")}
        a.update(names=[f"{i}" for i in range(n)], note=[1] * (n + 1))
        if rng.random() < 0.5:
            a["spins"] = C31.A(rng.normal(size=(n, 3)))

        def f(c, a):
            wulfric.PlotlyEngine().plot_atoms(c, a)

        return "plot_atoms", f, (c, a), {}
    if k == 3:
        kw = dict(max_iterations=int(rng.integers(0, 3)), implementation="wulfric")
        return "get_niggli", wulfric.cell.get_niggli, (c,), kw
    if k == 4:
        two = dict(positions=C31.A(np.zeros((2, 3))), spglib_types=[1, 1])
        return "get_spglib_data", wulfric.get_spglib_data, (c, two), {}
    if k == 5:
        return "lepage", wulfric.lepage, (c,), dict(give_all_results=bool(rng.random() < 0.5))
    if k == 6:
        return "logo", wulfric.logo, (), dict(flat=bool(rng.random() < 0.5))
    if k == 7:
        return "get_reciprocal", wulfric.cell.get_reciprocal, (C31.A(np.ones((3, 3))),), {}

    def f(c):
        pe = wulfric.PlotlyEngine()
        pe.plot_cell(c)
        pe.show(legend_position="nowhere")

    return "show", f, (c,), {}


def own(path, allowed, folder):
    """Is this a file the call may write?  (The bytes of imported modules are written by python.)"""
    if path in allowed or "__pycache__" in path:
        return True
    # a helper file beside the result is nobody's business once it is gone
    return bool(allowed) and os.path.dirname(path) == folder


READABLE = None
IN_PLACE = ("ensure_000", "shift_atoms", "get_unique_names", "cure_negative", "Kpoints")
WARM = False


def readable(path, allowed, folder):
    global READABLE
    if READABLE is None:
        READABLE = tuple(
            os.path.abspath(p) + os.sep
            for p in {sys.prefix, sys.base_prefix, sys.exec_prefix, ROOT, os.path.dirname(os.__file__),
                      *(p for p in sys.path if p and os.path.isdir(p))}
        ) + ("/proc/", "/dev/", "/usr/share/", "/usr/lib/", "/etc/", "/sys/")  # fmt: skip
    return (
        path.startswith("<") or path in allowed or own(path, allowed, folder)
        or (allowed and path == folder)
        or path.startswith(READABLE) or path.startswith(os.path.realpath(sys.prefix))
    )  # fmt: skip


def tree(folder):
    out = []
    for d, ds, fs in os.walk(folder):
        out += [os.path.join(d, x) for x in ds + fs]
    return sorted(out)


def case(mon, spec):
    global WARM
    rng = mon.rng
    if not WARM:
        WARM = True
        process.warm()
    todo = [(*c, None) for c in other.calls(int(rng.integers(1 << 40)), 36, 1 if spec["i"] % 8 == 0 else 0)]
    scratch = tempfile.mkdtemp(prefix="C36-")
    scratch = os.path.realpath(scratch)
    here, out = os.path.join(scratch, "here"), os.path.join(scratch, "out")
    os.mkdir(here)
    os.mkdir(out)
    for _ in range(3):
        todo.append(poscar(rng, out))
        todo.append((*rare(rng), None))
        todo.append((*rare(rng), None))
    if spec["i"] % 2 == 0:
        todo.append(page(rng, out))
    todo = [todo[int(k)] for k in rng.permutation(len(todo))]
    try:
        with process.Restored():
            os.chdir(here)
            process.unusual(rng)
            shared = process.modules()
            stops = [int(10 ** rng.uniform(0, 2.5)) if rng.random() < 0.33 else None for _ in todo]
            alone = undisturbed(todo, stops, scratch)
            for (name, f, values, kw, allowed), stop, want in zip(todo, stops, alone):
                ended = one(mon, stop, name, f, values, kw, allowed, here, out)
                if want is None or ended != "interrupted":
                    continue
                got = other.run(f, other.given(list(values)), other.given(kw))
                mon.expect(
                    C35.same(name, want, got),
                    f"after an interruption:{name}",
                    f"{name} gives something else after a call that was interrupted",
                    alone=want,
                    after=got,
                )
                mon.count("results after interruptions compared")
            now = process.modules()
            changed = sorted(
                f"{m}.{k}" for (m, k), v in shared.items() if now.get((m, k), v) is not v
            )
            mon.expect(
                not changed, f"replaced:{','.join(changed)[:60]}",
                f"functions of modules were replaced: {changed[:5]}",
            )  # fmt: skip
            gone = sorted(f"{m}.{k}" for m, k in shared if (m, k) not in now)
            mon.expect(not gone, "removed functions", f"{gone[:5]}")
            mon.count("modules compared")
    finally:
        process.Audit.current = None
        shutil.rmtree(scratch, ignore_errors=True)
    mon.sample(dict(calls=len(todo)))


def undisturbed(todo, stops, scratch):
    """Results of the calls that are going to be interrupted, by a child that is not."""
    path = os.path.join(scratch, "alone")
    pid = os.fork()
    if pid == 0:
        try:
            out = [
                None if stop is None or allowed is not None or name == "poscar file"
                else other.run(f, other.given(list(values)), other.given(kw))
                for (name, f, values, kw, allowed), stop in zip(todo, stops)
            ]  # fmt: skip
            with open(path, "wb") as g:
                pickle.dump(out, g)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    if not os.path.exists(path):
        raise HarnessError("the undisturbed calls failed")
    with open(path, "rb") as g:
        out = pickle.load(g)
    os.unlink(path)
    return out


def one(mon, stop, name, f, values, kw, allowed, here, out):
    files = name == "poscar file"
    values, kw = other.given(list(values)), other.given(kw)
    interrupt = process.Interrupt(ROOT, stop) if stop is not None else None
    audit = process.Audit()
    ended = "returned"
    existing = tree(here) + tree(out)
    opened = process.descriptors()
    mine = snap.freeze([values, kw]) if name not in IN_PLACE else None
    with process.Streams() as streams:
        before = process.picture()
        if interrupt:
            sys.settrace(interrupt)
        try:
            with audit:
                f(*values, **kw)
        except process.Fault:
            ended = "interrupted"
        except Exception:  # noqa: BLE001 - what is refused is judged elsewhere
            ended = "refused"
        finally:
            process.Audit.current = None
            if interrupt:
                sys.settrace(None)
        after = process.picture()
    if interrupt and interrupt.where and ended != "interrupted":
        # somebody swallowed the interruption (a bare except): the call ended in another way
        ended = "swallowed"
    note = f"{name} ({ended}{' at ' + interrupt.where if interrupt and interrupt.where else ''})"
    for k, v in before.items():
        if k == "random numbers" and name in ("plot_atoms", "show", "save"):
            continue  # names of groups in the legend are random when none is given
        mon.expect(
            after[k] == v,
            f"{k}:{name}",
            f"{k}: changed by {note}: {_short(v)} -> {_short(after[k])}",
        )
    mon.count("settings compared", len(before))
    if mine is not None:
        mon.expect(
            snap.freeze([values, kw]) == mine, f"arguments:{name}", f"arguments changed by {note}"
        )
        mon.count("arguments compared")
    mon.expect(not streams.replaced, f"streams:{name}", f"standard streams were replaced by {note}")
    mon.expect(
        streams.out.getvalue() == "",
        f"output:{name}",
        f"{note} wrote {streams.out.getvalue()[:80]!r} to the standard output",
    )
    may = [os.path.abspath(p) for p in allowed or ()]
    if files:
        may = [os.path.join(here, x) for x in {os.path.basename(p) for k, p in audit.events
                                               if "POSCAR-" in p}]  # fmt: skip
    folder = here if files else out
    for event, what in audit.events:
        if event == "read":
            fine = readable(what, may, folder) or any(
                isinstance(x, str) and x.startswith("/") and what.startswith(x) for x in values
            )
        elif event == "write" or event in process.SINKS:
            fine = own(what, may, folder)
            if event == "write" and what in may:
                mon.count("files written")
        else:
            fine = False
        mon.expect(fine, f"{event}:{name}", f"{note}: {event} {what}")
    mon.count("audit events observed", len(audit.events))
    left = [p for p in tree(here) + tree(out) if p not in existing and p not in may]
    mon.expect(not left, f"files:{name}", f"{note} left {left[:3]}")
    lost = [p for p in existing if not os.path.exists(p)]
    mon.expect(not lost, f"lost files:{name}", f"{note} removed {lost[:3]}")
    if may:
        mon.count("directories judged")
    now = process.descriptors()
    if len(now) > len(opened):
        gc.collect()
        now = process.descriptors()
    mon.expect(
        len(now) <= len(opened), f"open files:{name}",
        f"{note} left open {[t for n, t in now.items() if n not in opened][:3]}",
    )  # fmt: skip
    mon.count("calls judged")
    if ended != "returned":
        mon.count(f"{ended} calls judged")
    mon.state(name, ended)
    return ended


def _short(x):
    s = repr(x) if not isinstance(x, (bytes, np.ndarray)) else "numbers"
    return s if len(s) < 160 else s[:157] + "..."

