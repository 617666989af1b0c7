"""C35 - results depend on the arguments, not on the process, the order or other threads."""

import json
import os
import pickle
import subprocess
import sys
import tempfile

from vlib import snap
from vlib.core import HarnessError

ID = "C35"
RULE = (
    "the same random calls of all public functions (refused calls, functions that modify their "
    "arguments, files of the current directory and drawings included) in processes that differ in "
    "hash seed, optimisation level, print options of numpy, state of the random generators, "
    "locale and environment, garbage collection and order of the calls, and by six threads at "
    "once on shared objects with switches injected into the lines of the library; all results "
    "and types of refusals are compared; state = (function, outcome, variant) and pairs of "
    "functions that overlapped in time"
)
ASSUMPTIONS = [
    "texts of errors are not compared",
    "threads own the objects that a function is documented to modify",
]
REQUIRED = {
    "results compared": 5500,
    "refusals compared": 700,
    "processes": 80,
    "concurrent calls compared": 2500,
    "switches injected": 20000,
}
MIN_STATES = 500
CASE_CPU_LIMIT = 300


def cases(tier, seed):
    for i in range({"quick": 24, "thorough": 260}[tier]):
        yield dict(i=i)


def process(job, flags=(), env=None):
    full = dict(os.environ)
    full.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    full.update(env or {})
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "out.pickle")
        try:
            p = subprocess.run(
                [sys.executable, "-W", "ignore", *flags, "-m", "vlib.other", json.dumps(job), out],
                env=full,
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
                timeout=280,
            )
        except subprocess.TimeoutExpired:
            raise HarnessError("process of calls did not end in time")
        if p.returncode != 0 or not os.path.exists(out):
            return None, p.stderr.decode(errors="replace")[-1500:]
        with open(out, "rb") as f:
            return pickle.load(f), None


def same(name, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "refused":
        return a[1] == b[1]
    return snap.equal(a[1], b[1], 1e-7 if name == "dump_poscar" else 1e-9)


def variants(rng):
    seed = int(rng.integers(1, 1 << 30))
    return {
        "hash seed": (dict(), (), dict(PYTHONHASHSEED=str(int(rng.integers(1, 1 << 31))))),
        "reversed": (dict(order="reversed", gc=True), (), {}),
        "optimised": (dict(order=seed), ("-O",), {}),
        "optimised without docstrings": (
            dict(order=seed),
            ("-OO",),
            dict(PYTHONHASHSEED=str(int(rng.integers(1, 1 << 31)))),
        ),
        "print options": (dict(print=True, random=seed), (), {}),
        "environment": (
            dict(order="reversed", random=seed),
            ("-X", "dev") if rng.random() < 0.3 else (),
            dict(LC_ALL="C", LANG="de_DE.UTF-8", HOME="/nonexistent", COLUMNS="10", TERM="dumb",
                 TZ="Asia/Tokyo", PYTHONHASHSEED=str(int(rng.integers(1, 1 << 31)))),
        ),
        "shuffled": (dict(order=seed), (), {}),
        "threads": (dict(threads=6, order=seed, share=0.08), (), {}),
    }  # fmt: skip


def case(mon, spec):
    rng = mon.rng
    slow = 2 if spec["i"] % 4 == 0 else 0
    job = dict(seed=int(rng.integers(1 << 40)), n=110, slow=slow, order="given")
    first, error = process(job)
    if first is None:
        raise HarnessError(f"process of calls failed: {error}")
    results, info = first
    names = info["names"]
    mon.count("processes")
    every = variants(rng)
    chosen = [str(s) for s in rng.permutation([n for n in every if n != "threads"])[:3]]
    chosen.append("threads")
    for v in chosen:
        change, flags, env = every[v]
        second, error = process(dict(job, **change), flags, env)
        mon.expect(
            second is not None,
            f"failed:{v}",
            f"the calls cannot be made in the variant '{v}': {error}",
        )
        mon.count("processes")
        other, more = second
        mon.expect(more["names"] == names, "harness:calls", "other calls were generated")
        if v == "threads":
            mon.count("switches injected", more["switches"])
            mon.count("lines observed in threads", more["lines"])
            for pair in more["overlaps"]:
                mon.state("overlap", *pair)
        for name, a, bs in zip(names, results, other):
            for b in bs:
                mon.state(name, a[0][0], v)
                mon.count("concurrent calls compared" if v == "threads" else "results compared")
                if a[0][0] == "refused":
                    mon.count("refusals compared")
                mon.expect(
                    same(name, a[0], b),
                    f"{v}:{name}",
                    f"{name} gave something else in the variant '{v}' (seed {job['seed']})",
                    first=a[0],
                    second=b,
                )
    mon.sample(dict(variants=chosen, calls=len(names)))
