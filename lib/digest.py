"""What a user can see of an object, for telling whether an operation changed it."""
import numpy as np


def digest(x, seen=None):
    """What a user can see of an object: numbers, functions by identity, recursively."""
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, tuple(digest(q, seen) for q in x.ravel()))
        return (str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return repr(x)
    if callable(x) and not hasattr(x, "__dict__") or type(x).__name__ == "function":
        return ("function", id(x))
    if id(x) in seen:
        return ("again", type(x).__name__)
    seen.add(id(x))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), digest(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("list", tuple(digest(q, seen) for q in x))
    if hasattr(x, "__dict__"):
        return ("object", type(x).__name__, {k: digest(v, seen) for k, v in list(vars(x).items())})
    return repr(x)


def same(before, after):
    """Whether nothing known before has changed (what an object only gained, a cache, does not count)."""
    if type(before) is not type(after):
        return False
    if isinstance(before, dict):
        return all(k in after and same(v, after[k]) for k, v in before.items())
    if isinstance(before, tuple):
        return len(before) == len(after) and all(same(a, b) for a, b in zip(before, after))
    return before == after
