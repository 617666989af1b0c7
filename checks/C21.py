"""C21 - volumes, angles and spherical coordinates obey their definitions."""

import math

import numpy as np

import wulfric
from checks.C16 import random_cell
from vlib import gen

ID = "C21"
RULE = (
    "random, nearly parallel, tiny, huge and axis-aligned vectors, lists and arrays, any polar "
    "axis and any zero line (also not perpendicular to it); vectors "
    "(also close to the pole and to the zero line) are rebuilt from their spherical "
    "coordinates; angles and volumes (also of almost flat parallelepipeds) are compared with "
    "independent formulas and with each other; state = (kind of vectors, form)"
)
ASSUMPTIONS = ["vectors within 1e-4 of the polar axis are judged with the tolerance 1e-4"]
REQUIRED = {"vectors judged": 3000, "angles judged": 3000, "volumes judged": 1000,
            "almost flat": 200, "near the pole or the zero line": 800,
            "refusals observed": 100}  # fmt: skip
MIN_STATES = 20
G = wulfric.geometry


def cases(tier, seed):
    for i in range({"quick": 8000, "thorough": 150000}[tier]):
        yield dict(i=i)


def vector(rng, kind):
    while True:
        if kind == "axis":
            v = rng.integers(-1, 2, size=3).astype(float) * rng.choice([1.0, 0.5, 7.0])
        elif kind == "integer":
            v = rng.integers(-4, 5, size=3).astype(float)
        else:
            v = rng.normal(size=3)
        if kind == "tiny":
            v *= 10 ** rng.uniform(-9, -3)
        if kind == "huge":
            v *= 10 ** rng.uniform(3, 9)
        if np.linalg.norm(v) > 1e-12:
            return v


def form(rng, v):
    k = int(rng.integers(3))
    return [v.copy(), v.tolist(), tuple(v.tolist())][k]


def case(mon, spec):
    rng = mon.rng
    kind = str(rng.choice(["normal", "axis", "integer", "tiny", "huge"]))
    # --------------------------------------------------------------------------- angles
    u, v = vector(rng, kind), vector(rng, kind)
    if rng.random() < 0.2:
        v = u * float(rng.choice([2.0, -3.0])) + vector(rng, kind) * 10 ** rng.uniform(-7, -2)
    uu, vv = u / np.linalg.norm(u), v / np.linalg.norm(v)
    want = math.atan2(np.linalg.norm(np.cross(uu, vv)), float(uu @ vv))
    got = mon.call(G.get_angle, form(rng, u), form(rng, v), radians=True)
    mon.close(got, want, 3e-8, "angle in radians", f"{u} {v}")
    mon.close(
        mon.call(G.get_angle, form(rng, v), form(rng, u)),
        math.degrees(want),
        3e-6,
        "angle in degrees",
        f"{v} {u}",
    )
    s = float(10 ** rng.uniform(-2, 2))
    mon.close(
        mon.call(G.get_angle, -u * s, v), 180 - math.degrees(want), 3e-6, "opposite vector", ""
    )
    mon.close(mon.call(G.get_angle, u, u * s), 0, 3e-6, "angle with itself", f"{u}")
    mon.count("angles judged", 4)
    if rng.random() < 0.1:
        z = [0.0, 0.0, 0.0] if rng.random() < 0.5 else np.zeros(3)
        mon.refuses(ValueError, G.get_angle, z, v)
        mon.refuses(ValueError, G.get_angle, v, z)
        mon.refuses(ValueError, G.get_angle, z, z, radians=True)
    # -------------------------------------------------------------------------- volumes
    ck, c = random_cell(rng)
    if rng.random() < 0.3:
        # vectors of very different lengths
        c = c * 10.0 ** rng.uniform(-7, 7, size=(3, 1))
    a1, a2, a3 = c
    want = abs(
        a1[0] * (a2[1] * a3[2] - a2[2] * a3[1])
        - a1[1] * (a2[0] * a3[2] - a2[2] * a3[0])
        + a1[2] * (a2[0] * a3[1] - a2[1] * a3[0])
    )
    size = np.linalg.norm(c, axis=1).prod()
    mon.close(mon.call(G.get_volume, c), want, 1e-12 * size, "volume of a cell", ck)
    mon.close(
        mon.call(G.get_volume, *[form(rng, x) for x in c]), want, 1e-12 * size, "three vectors", ck
    )
    mon.close(mon.call(G.get_volume, c.tolist()), want, 1e-12 * size, "volume of a list", ck)
    mon.close(
        mon.call(G.get_volume, c[rng.permutation(3)]), want, 1e-12 * size, "order of vectors", ck
    )
    p = gen.params(c)
    if want > 0.02 * size:
        mon.close(
            mon.call(G.get_volume, *p), want, 1e-5 * size, "volume from parameters", f"{p}"
        )
    # any parallelepiped, also an almost flat one
    while True:
        t = np.radians(rng.uniform(1, 179, size=3))
        if rng.random() < 0.5:
            d = 10 ** rng.uniform(-6, -1)
            t[2] = [t[0] + t[1], abs(t[0] - t[1]), 2 * np.pi - t[0] - t[1]][int(rng.integers(3))]
            t[2] += float(rng.choice([-1, 1])) * d
        if rng.random() < 0.3:
            t[int(rng.integers(3))] = math.pi / 2
        h = t.sum() / 2
        square = 4 * math.sin(h) * np.prod(np.sin(h - t))
        if min(h - t) > 0 and t.min() > 0.01 and h < math.pi and square > 1e-11:
            break
    abc = rng.uniform(0.2, 9, size=3) * float(rng.choice([1, 1, 1e-6, 1e5]))
    got = mon.call(G.get_volume, *abc.tolist(), *np.degrees(t).tolist())
    mon.close(
        (got / abc.prod()) ** 2, square, 1e-12, "volume from parameters", f"{abc} {np.degrees(t)}"
    )
    mon.count("almost flat", int(square < 1e-4))
    mon.count("volumes judged", 5)
    if rng.random() < 0.1:
        mon.refuses(ValueError, G.get_volume, a1, a2)
        mon.refuses(ValueError, G.get_volume, 1, 2, 3, 90, 90)
        mon.refuses(ValueError, G.get_volume)
    # ------------------------------------------------------------ spherical coordinates
    x = vector(rng, kind)
    kw = {}
    if rng.random() < 0.7:
        pa = vector(rng, str(rng.choice(["normal", "axis", "integer", "huge"])))
        kw["polar_axis"] = form(rng, pa)
    else:
        pa = np.array([0.0, 0, 1])
    pu = pa / np.linalg.norm(pa)
    while True:
        if "polar_axis" in kw or rng.random() < 0.5:
            ra = vector(rng, str(rng.choice(["normal", "axis", "integer"])))
            kw["radial_line_zero"] = form(rng, ra)
        else:
            ra = np.array([1.0, 0, 0])
        perp = ra / np.linalg.norm(ra)
        perp = perp - pu * (pu @ perp)
        if np.linalg.norm(perp) > 1e-3:
            break
        kw.pop("radial_line_zero", None)
    e1 = perp / np.linalg.norm(perp)
    e2 = np.cross(pu, e1)
    where = rng.random()
    r = np.linalg.norm(x)
    if where < 0.15:
        x = pu * r * (1 if where < 0.075 else -1)
    elif where < 0.5:
        # near the pole or near the zero line (or opposite to them)
        d = float(rng.choice([-1, 1])) * 10 ** rng.uniform(-7, -0.5)
        if where < 0.28:
            a = rng.uniform(0, 2 * math.pi)
            t = d + (0 if where < 0.21 else math.pi)
        else:
            a = d + (0 if where < 0.42 else math.pi)
            t = rng.uniform(0, math.pi)
        x = r * (math.cos(t) * pu + math.sin(t) * (math.cos(a) * e1 + math.sin(a) * e2))
        mon.count("near the pole or the zero line")
    deg = bool(rng.random() < 0.6)
    if not deg:
        kw["in_degrees"] = False
    R, th, ph = mon.call(G.get_spherical, form(rng, x), **kw)
    if deg:
        th, ph = math.radians(th), math.radians(ph)
    note = f"{x.tolist()} {kw} -> {(R, th, ph)}"
    mon.close(R / r, 1, 1e-12, "radius", note)
    mon.expect(-1e-12 <= th <= math.pi + 1e-12, "range of the polar angle", note)
    mon.expect(-1e-12 <= ph <= 2 * math.pi + 1e-12, "range of the azimuth", note)
    xu = x / r
    near = np.linalg.norm(np.cross(xu, pu))
    back = (
        math.cos(th) * pu + math.sin(th) * (math.cos(ph) * e1 + math.sin(ph) * e2)
    )
    mon.close(back, xu, 1e-4 if near < 1e-4 else 2e-7 + 1e-7 / near * 1e-3, "rebuilt vector", note)
    if where < 0.15:
        mon.close(
            [th, ph],
            [0, 0] if where < 0.075 else [math.pi, math.pi],
            1e-9,
            "vector along the polar axis",
            note,
        )
    mon.count("vectors judged")
    mon.state(kind, "deg" if deg else "rad", "axis" if where < 0.15 else "", len(kw))
    mon.sample(dict(vector=x, spherical=[R, th, ph]))
