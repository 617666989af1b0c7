"""C15 - string and list forms of a k-path are two spellings of the same path."""

import wulfric

ID = "C15"
RULE = (
    "random paths (names with digits, underscores, spaces and non-ASCII letters, 1-12 subpaths "
    "of 2-30 points, lists and tuples); both conversions and both round trips are compared "
    "with an independent parser; state = (form, number of subpaths, longest subpath)"
)
ASSUMPTIONS = ["names do not contain '-' and '|'"]
REQUIRED = {"round trips": 1000, "refusals observed": 300}
MIN_STATES = 60

ALPHABET = list("ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz0123456789_ '.,+*Γσ")


def cases(tier, seed):
    for i in range({"quick": 8000, "thorough": 40000}[tier]):
        yield dict(i=i)


def case(mon, spec):
    rng = mon.rng
    names = [
        "".join(rng.choice(ALPHABET, size=int(rng.integers(1, 9)))) for _ in range(12)
    ] + ["GAMMA", "SIGMA0", "X_P", "H2"]
    path = [
        [str(s) for s in rng.choice(names, size=int(rng.choice([2, 2, 3, 4, 7, 30])))]
        for _ in range(int(rng.choice([1, 1, 2, 3, 5, 12])))
    ]
    text = ""
    for i, s in enumerate(path):
        text += "|" if i else ""
        for j, n in enumerate(s):
            text += ("-" if j else "") + n
    got = mon.call(wulfric.kpoints.get_path_as_list, text)
    mon.expect(got == path, "list", f"{text!r} was read as {got}")
    mon.expect(
        isinstance(got, list) and all(isinstance(s, list) for s in got), "types", f"{got}"
    )
    form = int(rng.integers(3))
    given = [path, tuple(tuple(s) for s in path), [tuple(s) for s in path]][form]
    got = mon.call(wulfric.kpoints.get_path_as_string, given)
    mon.expect(got == text, "string", f"{given} was written as {got!r}")
    mon.expect(
        mon.call(wulfric.kpoints.get_path_as_list, got) == path, "round trip", f"{text!r}"
    )
    mon.count("round trips")
    k = int(rng.integers(len(path)))
    short = [list(s) for s in path]
    short[k] = short[k][:1]
    bad = "|".join("-".join(s) for s in short)
    mon.refuses(ValueError, wulfric.kpoints.get_path_as_list, bad)
    mon.refuses(ValueError, wulfric.kpoints.get_path_as_list, given)
    mon.refuses(
        ValueError, wulfric.kpoints.get_path_as_string, [3, 1.5, None][int(rng.integers(3))]
    )
    mon.refuses(ValueError, wulfric.kpoints.get_path_as_string, path[:k] + [7] + path[k + 1 :])
    mon.state(form, len(path), max(map(len, path)))
    mon.sample(dict(text=text))
