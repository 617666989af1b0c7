r"""Execution monitor: runs workloads against the real code and records verdicts.

Every check is a list of *cases* (small JSON-able specifications) and a function
``case(mon, spec)`` that drives the public interface of wulfric through ``mon.call`` (the
client boundary, where the events are recorded) and judges what was observed with oracles
from this directory.  Verdicts are three-valued:

*   violated       exit 1, ``VIOLATION property=<id> replay=<path>``
*   held           exit 0
*   inconclusive   exit 2 (monitor not reached, workload or harness failed)
"""

import collections
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from multiprocessing import get_context

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

import numpy as np

from vlib import forms, history

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEMORY_LIMIT = 5 * 2**30
CASE_CPU_LIMIT = 60.0  # seconds of CPU time of one case (a typical case takes 0.01 - 3 s)


class Violation(Exception):
    def __init__(self, mechanism, message, data=None):
        super().__init__(f"{mechanism}: {message}")
        self.mechanism = mechanism
        self.message = message
        self.data = data


class Skip(Exception):
    """The workload generator could not make a case (nothing was observed)."""


class HarnessError(Exception):
    pass


class _Hang(BaseException):
    pass


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:400]


class Monitor:
    """One case: its random stream, its event counters and its verdicts."""

    def __init__(self, prop, spec, seed, tier):
        self.prop = prop
        self.spec = spec
        self.tier = tier
        h = hashlib.sha256(json.dumps([prop, spec, seed]).encode()).digest()
        self.rng = np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))
        # the history before the monitored calls has its own stream
        self.hostile = np.random.default_rng(np.frombuffer(h[16:], dtype=np.uint32))
        self.hostility = history.SHARE
        # so have the forms of the arguments
        self.formal = np.random.default_rng(np.frombuffer(h[8:24], dtype=np.uint32))
        self.events = collections.Counter()
        self.states = set()
        self.samples = []
        self.found = []  # (mechanism, message, data)
        self.calls = 0
        self.trace = collections.deque(maxlen=6)

    # ------------------------------------------------------------------ observations
    def count(self, event, n=1):
        self.events[event] += n

    def state(self, *key):
        self.states.add("/".join(str(k) for k in key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    # ------------------------------------------------------------------ client boundary
    def call(self, fn, *args, **kwargs):
        """Call of the monitored code that has to return."""
        history.prelude(self, fn, args, kwargs)
        args, kwargs = forms.vary(self.formal, fn, args, kwargs, self.count)
        self.calls += 1
        self.events["calls"] += 1
        name = getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn)))
        self.trace.append(name)
        try:
            return fn(*args, **kwargs)
        except _Hang:
            raise
        except Exception as e:
            raise Violation(
                f"raised:{name}:{type(e).__name__}",
                f"{name} raised {type(e).__name__}: {str(e)[:300]}",
                dict(args=args, kwargs=kwargs),
            )

    def refuses(self, exc, fn, *args, **kwargs):
        """Call of the monitored code that has to raise ``exc``."""
        self.calls += 1
        self.events["calls"] += 1
        name = getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn)))
        self.trace.append(name)
        try:
            r = fn(*args, **kwargs)
        except exc:
            self.events["refusals observed"] += 1
            return
        except _Hang:
            raise
        except Exception as e:
            raise Violation(
                f"wrong-exception:{name}",
                f"{name} raised {type(e).__name__} ({str(e)[:200]}) instead of {exc}",
                dict(args=args, kwargs=kwargs),
            )
        raise Violation(
            f"not-refused:{name}",
            f"{name} accepted what it has to refuse with {exc}, returned {jsonable(r)!r:.200}",
            dict(args=args, kwargs=kwargs),
        )

    # ------------------------------------------------------------------ judgements
    def expect(self, cond, mechanism, message="", **data):
        self.events["judgements"] += 1
        if not cond:
            raise Violation(mechanism, message or mechanism, data)

    def close(self, a, b, tol, mechanism, message="", **data):
        self.events["judgements"] += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(
                mechanism, f"{message} shapes {a.shape} and {b.shape}", data
            )
        if a.size and not (np.all(np.isfinite(a)) and np.abs(a - b).max() <= tol):
            data.update(observed=a, expected=b)
            raise Violation(
                mechanism,
                f"{message} differ by {np.abs(a - b).max():.3g} (tolerance {tol:.3g})",
                data,
            )


# ====================================================================== running of cases
_MOD = None
_CTX = None


def _on_cpu(signum, frame):
    raise _Hang()


def run_case(module, spec, seed, tier):
    mon = Monitor(module.ID, spec, seed, tier)
    out = dict(spec=spec, verdict="held", found=[])
    t0 = time.process_time()
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(
        signal.ITIMER_PROF, getattr(module, "CASE_CPU_LIMIT", CASE_CPU_LIMIT)
    )
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            module.case(mon, spec)
    except Violation as v:
        mon.found.append((v.mechanism, v.message, v.data))
    except Skip:
        out["verdict"] = "skipped"
    except _Hang:
        mon.found.append(
            (
                "no-progress",
                f"no return within {CASE_CPU_LIMIT} s of CPU time, last calls "
                f"{list(mon.trace)}",
                None,
            )
        )
    except (MemoryError, HarnessError) as e:
        out["verdict"] = "harness"
        out["error"] = "".join(traceback.format_exception(e))[-3000:]
    except Exception as e:
        # The oracle can interpret every result of the unchanged code; after a call it is
        # the observed result that could not be interpreted.
        if mon.calls == 0:
            out["verdict"] = "harness"
            out["error"] = "".join(traceback.format_exception(e))[-3000:]
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/verif/" in f.filename or ROOT in f.filename]
            at = (where or tb)[-1]
            mon.found.append(
                (
                    f"uninterpretable:{type(e).__name__}",
                    f"result of {list(mon.trace)[-1:]} is not what is documented: "
                    f"{type(e).__name__}: {str(e)[:300]} ({at.name}:{at.lineno})",
                    None,
                )
            )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    if mon.found:
        out["verdict"] = "violated"
        out["found"] = [(m, t, jsonable(d)) for m, t, d in mon.found]
    out["events"] = dict(mon.events)
    out["states"] = sorted(mon.states)
    out["samples"] = mon.samples
    out["cpu"] = time.process_time() - t0
    return out


def _init(name, seed, tier):
    global _MOD, _CTX
    # a run-away allocation ends as MemoryError of one case, not as the end of the check
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    _MOD = importlib.import_module(name)
    _CTX = (seed, tier)


def _work(spec):
    return run_case(_MOD, spec, *_CTX)


def known_findings():
    """{property: [(mechanism, text)]} from the committed file (never written here)."""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                mech = parts[2].split("=", 1)[1]
                out.setdefault(prop, []).append((mech, parts[3].strip()))
    return out


def main(name, argv):
    module = importlib.import_module(name)
    prop = module.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    for t in ("quick", "thorough"):
        if t in argv:
            tier = t
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        out = run_case(module, rec["spec"], rec["seed"], rec["tier"])
        print(json.dumps(out, indent=1)[:6000])
        return 1 if out["verdict"] == "violated" else 0

    t0 = time.time()
    specs = list(module.cases(tier, seed))
    cap = getattr(module, "TIME_CAP", {"quick": 240, "thorough": 700})[tier]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1
    events = collections.Counter()
    verdicts = collections.Counter()
    states = set()
    keys = set()
    samples = []
    violated, harness = [], []
    stopped = None
    known = known_findings().get(prop, [])
    known_seen = {}
    slowest = 0.0

    ctx = get_context("fork")
    pool = ctx.Pool(
        min(jobs, max(1, len(specs))), initializer=_init, initargs=(name, seed, tier)
    )
    it = pool.imap_unordered(_work, specs, chunksize=1)
    done = 0
    try:
        while done < len(specs):
            left = cap - (time.time() - t0)
            if left <= 0:
                stopped = "time cap"
                break
            try:
                r = it.next(timeout=left)
            except StopIteration:
                break
            except TimeoutError:
                stopped = "time cap"
                break
            except Exception as e:
                if type(e).__name__ == "TimeoutError":
                    stopped = "time cap"
                    break
                raise
            done += 1
            verdicts[r["verdict"]] += 1
            events.update(r["events"])
            states.update(r["states"])
            slowest = max(slowest, r["cpu"])
            if len(samples) < 4:
                samples += [dict(case=r["spec"], observed=s) for s in r["samples"]]
            if r["verdict"] == "harness":
                harness.append(r)
            if r["verdict"] == "violated":
                fresh = []
                for m, t, d in r["found"]:
                    hit = [k for k in known if k[0] == m]
                    if hit:
                        known_seen.setdefault(m, hit[0][1])
                    else:
                        fresh.append((m, t, d))
                if fresh:
                    violated.append((r["spec"], fresh))
                    if len(violated) >= 5:
                        stopped = "violations"
                        break
    finally:
        pool.terminate()
        pool.join()

    # ------------------------------------------------------------------------- verdict
    for m, text in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {text}")
    missing = []
    need = module.REQUIRED if isinstance(module.REQUIRED, dict) else {}
    for event, n in need.items():
        if events[event] < n:
            missing.append(f"{event}: {events[event]} < {n}")
    if len(states) < getattr(module, "MIN_STATES", 1):
        missing.append(f"distinct states: {len(states)} < {module.MIN_STATES}")

    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=int(done),
            distinct_nontrivial=len(states),
            rule=module.RULE,
            samples=samples[:4],
            cases_planned=len(specs),
            verdicts=dict(verdicts),
            monitored_events=dict(sorted(events.items())),
            distinct_states_sample=sorted(states)[:: max(1, len(states) // 12)][:14],
            stopped_by=stopped or "all cases done",
            slowest_case_cpu_s=round(slowest, 3),
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 3),
        violations=len(violated),
    )
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)

    if violated:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for i, (spec, fresh) in enumerate(violated):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(
                    jsonable(
                        dict(
                            property=prop,
                            spec=spec,
                            seed=seed,
                            tier=tier,
                            violations=fresh,
                            replay=f"bin/check {prop} --replay {path}",
                        )
                    ),
                    f,
                    indent=1,
                )
            for m, t, _ in fresh:
                if m in shown:
                    continue
                shown.add(m)
                print(f"  {m}: {t[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if harness:
        print(f"INCONCLUSIVE property={prop}: harness failed in {len(harness)} cases")
        print(json.dumps(harness[0]["spec"]), harness[0]["error"])
        return 2
    if missing:
        print(f"INCONCLUSIVE property={prop}: monitors not reached: " + "; ".join(missing))
        return 2
    print(
        f"held property={prop} tier={tier} seed={seed} cases={done}/{len(specs)} "
        f"{dict(verdicts)} judgements={events['judgements']} calls={events['calls']} "
        f"states={len(states)} wall={ev['wall_s']}s"
        + (f" stopped by {stopped}" if stopped else "")
    )
    return 0
