"""C22 - comparisons with a tolerance obey their definition and exclude each other."""

import numpy as np

import wulfric

ID = "C22"
RULE = (
    "pairs of numbers at, just inside and just outside the tolerance, at many magnitudes, with "
    "an explicit, a default and a partly given tolerance, python and numpy numbers; results "
    "are compared with the definition and with each other; state = (tolerance, side, sign)"
)
ASSUMPTIONS = ["differences within 1e-12 (relative) of the tolerance itself are not judged"]
REQUIRED = {"comparisons judged": 15000, "refusals observed": 200}
MIN_STATES = 40
CONDITIONS = ["<", ">", "<=", ">=", "==", "!="]


def cases(tier, seed):
    for i in range({"quick": 15000, "thorough": 80000}[tier]):
        yield dict(i=i)


def case(mon, spec):
    rng = mon.rng
    f = wulfric.compare_with_tolerance
    y = float(rng.choice([0.0, 1.0, -1.0, rng.normal(), rng.normal() * 10 ** rng.uniform(-9, 9)]))
    how = str(rng.choice(["eps", "default", "rtol", "atol", "both", "eps and both"]))
    kw = {}
    if "eps" in how:
        kw["eps"] = float(rng.choice([0.0, 1e-5, 0.3, abs(rng.normal()) * 10 ** rng.uniform(-9, 3)]))
    if how in ("rtol", "both", "eps and both"):
        kw["rtol"] = float(rng.choice([0.0, 1e-3, 0.1]))
    if how in ("atol", "both", "eps and both"):
        kw["atol"] = float(rng.choice([0.0, 1e-4, 2.0]))
    eps = kw.get("eps", kw.get("atol", 1e-8) + kw.get("rtol", 1e-5) * abs(y))
    side = float(rng.choice([0.0, 0.5, -0.5, 0.999, -0.999, 1.001, -1.001, 2, -2, 1e3, -1e3]))
    x = y + side * eps
    if eps == 0 and rng.random() < 0.5:
        x = y + float(rng.normal())
    d = x - y
    if abs(abs(d) - eps) <= 1e-12 * (abs(x) + abs(y) + eps) and eps > 0:
        return
    lower, upper = d < -eps, d > eps
    want = {
        "<": lower,
        ">": upper,
        "<=": not upper,
        ">=": not lower,
        "==": not (lower or upper),
        "!=": lower or upper,
    }
    a, b = x, y
    if rng.random() < 0.2:
        a, b = np.float64(x), np.float64(y)
    for c in CONDITIONS:
        got = mon.call(f, a, c, b, **kw)
        mon.expect(bool(got) == want[c], f"comparison {c}", f"{x!r} {c} {y!r} {kw}: {got}")
        mon.count("comparisons judged")
    mon.state(how, side, np.sign(y))
    if rng.random() < 0.1:
        mon.refuses(ValueError, f, x, str(rng.choice(["=", "<>", "", "eq", "===", "=<"])), y, **kw)
    mon.sample(dict(x=x, y=y, options=kw, results=want))
