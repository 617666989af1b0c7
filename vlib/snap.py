"""Snapshots of values: deep copies that can be compared with the live objects later."""

import dataclasses

import numpy as np


def freeze(x):
    """Deep immutable picture of ``x`` (values, types of containers, keys and their order)."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.kind, tuple(x.ravel().tolist()))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return ("data", tuple(sorted((k, freeze(v)) for k, v in vars(x).items())))
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


def equal(a, b, tol=1e-9):
    """Two results of the monitored code carry the same information."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict)
            and isinstance(b, dict)
            and list(a) == list(b)
            and all(equal(a[k], b[k], tol) for k in a)
        )
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return False
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            return all(equal(u, v, tol) for u, v in zip(a, b))
        return x.shape == y.shape and bool(
            np.all((np.abs(x - y) <= tol * (1 + np.abs(y))) | (np.isnan(x) & np.isnan(y)))
        )
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return abs(a - b) <= tol * (1 + abs(b))
    if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b):
        return equal(vars(a), vars(b), tol)
    return a == b


def deface(x):
    """What a careless caller does with a result: overwrite every container of it in place.

    Values nested in lists are left alone (they may be the objects of the caller)."""
    if isinstance(x, tuple):
        for v in x:
            deface(v)
    elif isinstance(x, dict):
        for v in x.values():
            deface(v)
        x["defaced"] = True
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiu":
            x[...] = 77
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], np.ndarray):
                x[i] = np.full(x[i].shape, 77.0)
            else:
                x[i] = "defaced"
        x.append("defaced")
