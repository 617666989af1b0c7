"""The same numbers given in other forms.

The documentation promises array-like arguments: which kind of sequence holds the
numbers, how it lies in the memory and whether whole numbers come as integers are no
business of the functions; the same holds for the case of letters in the names of
conventions and for dictionaries with attributes. Values of the arguments are never changed here.
"""

import numpy as np

SHARE = 0.25  # of the calls

# functions that only read their arguments
READERS = {
    "get_conventional",
    "get_primitive",
    "get_spglib_data",
    "get_path_and_points",
    "from_crystal",
    "sc_get_variation",
    "hpkot_get_extended_bl_symbol",
    "get_vector",
    "get_distance",
    "get_reciprocal",
    "get_params",
    "get_scalar_products",
    "get_transformation_matrix",
    "get_niggli",
    "get_lattice_points",
    "get_wigner_seitz_cell",
    "get_brillouin_zone",
    "get_volume",
    "get_angle",
    "get_spherical",
    "from_params",
    "parallelepiped_check",
    "absolute_to_relative",
    "Kpoints",
    "add_hs_point",
    "dump_poscar",
}


def whole(a):
    return bool(np.all(a == np.rint(a)) and np.all(np.abs(a) < 2**30))


def _mixed(v):
    """Whole numbers as integers, the others as they are, as a person writes them."""
    if isinstance(v, (list, tuple)):
        return type(v)(_mixed(x) for x in v)
    return int(v) if v == int(v) else v


def array(rng, a):
    """Another form of the vector or matrix ``a``, and the name of that form."""
    integer = np.array(a).dtype.kind == "i"
    a = np.array(a, dtype=float)
    how = [
        "list",
        "tuple",
        "array",
        "fortran",
        "strided",
        "backwards",
        "read-only",
        "rows",
        "mixed",
    ]
    if whole(a):
        how += ["ints", "int array", "int32", "fortran ints", "mixed"] * 3
    if integer:  # numbers of cells: have to stay integers
        how = ["ints", "int array", "int32", "tuple of ints"]
    h = str(rng.choice(how))
    if h == "list":
        return a.tolist(), h
    if h == "tuple":
        r = a.tolist()
        return (tuple(map(tuple, r)) if a.ndim == 2 else tuple(r)), h
    if h == "fortran":
        return np.asfortranarray(a), h
    if h == "strided":
        return np.repeat(np.repeat(a, 2, axis=0), 3, axis=-1)[::2, ..., ::3][: len(a)] if a.ndim == 2 else np.repeat(a, 3)[::3], h
    if h == "backwards":
        return np.array(a[::-1])[::-1], h
    if h == "read-only":
        a.flags.writeable = False
        return a, h
    if h == "rows":
        return ([np.array(r) for r in a] if a.ndim == 2 else [np.float64(x) for x in a]), h
    if h == "mixed":
        return _mixed(a.tolist()), h
    if h == "ints":
        return np.rint(a).astype(int).tolist(), h
    if h == "tuple of ints":
        r = np.rint(a).astype(int).tolist()
        return (tuple(map(tuple, r)) if a.ndim == 2 else tuple(r)), h
    if h == "int array":
        return np.rint(a).astype(int), h
    if h == "int32":
        return np.rint(a).astype(np.int32), h
    if h == "fortran ints":
        return np.asfortranarray(np.rint(a).astype(int)), h
    return a, h


def numeric(v):
    """Vector or matrix of real numbers that is not empty."""
    if isinstance(v, np.ndarray):
        return v.ndim in (1, 2) and v.size and v.dtype.kind in "fi"
    if isinstance(v, (list, tuple)) and v:
        if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
            return True
        if all(isinstance(x, (list, tuple, np.ndarray)) for x in v):
            return len({len(x) for x in v}) == 1 and all(
                numeric(x) and not isinstance(x[0], (list, tuple, np.ndarray)) for x in v
            )
    return False


def _worth(rng, v):
    """Numbers that can be given as integers are rare: most of them are."""
    if type(v) is dict:
        v = v.get("positions")
    if not isinstance(v, (list, tuple, np.ndarray)) or len(v) > 40 or not numeric(v):
        return False
    return whole(np.array(v, dtype=float)) and rng.random() < 0.7


def other(rng, v, count, strength):
    if rng.random() > strength and not _worth(rng, v):
        return v
    if numeric(v):
        r, h = array(rng, v)
        count(f"form: {h}")
        return r
    if type(v) is dict and "positions" in v and numeric(v["positions"]):
        r, h = array(rng, v["positions"])
        count(f"form of positions: {h}")
        v = dict(v, positions=r)
        if rng.random() < 0.25:
            import wulfric

            count("form: dictionary with attributes")
            v = wulfric.add_sugar(v)
        return v
    if type(v) is str and v.lower() in ("hpkot", "sc", "spglib", "wulfric"):
        count("form: case of letters")
        return str(rng.choice([v.lower(), v.upper(), v.title(), v.swapcase()]))
    if isinstance(v, float) and np.isfinite(v):
        count("form: scalar")
        if v == int(v) and abs(v) < 2**30:
            return int(v)
        return np.float64(v) if type(v) is float else float(v)
    if type(v) is int:
        count("form: numpy integer")
        return np.int64(v)
    return v


def vary(rng, fn, args, kwargs, count):
    if getattr(fn, "__name__", "") not in READERS:
        return args, kwargs
    strength = 0.5 if rng.random() < SHARE else 0.0
    return (
        tuple(other(rng, v, count, strength) for v in args),
        {k: other(rng, v, count, strength) for k, v in kwargs.items()},
    )
