"""Deep, comparable snapshots of anything a caller can hold."""
import numpy as np
import pandas as pd


def snap(x, depth=0):
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return ("v", type(x).__name__, x)
    if isinstance(x, float):
        return ("f", float(x))
    if isinstance(x, np.generic):
        return ("g", str(x.dtype), x.item())
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.shape, [snap(v) for v in x.ravel().tolist()] if x.dtype == object else x.copy())
    if isinstance(x, pd.DataFrame):
        extra = tuple((k, getattr(x, k, None)) for k in ("origin", "dev", "value")
                      if type(x).__name__.endswith("Triangle") and isinstance(getattr(x, k, None), str))
        return ("df", type(x).__name__, extra, snap(x.index), snap(x.columns), [str(d) for d in x.dtypes],
                [snap(np.asarray(x.iloc[:, k])) for k in range(x.shape[1])])
    if isinstance(x, pd.Series):
        if x.dtype == object and len(x) and hasattr(x.iloc[0], "ppf"):
            return ("rv", snap(x.index), [snap(np.array([v.mean(), v.std(), v.ppf(.3)])) for v in x])
        return ("s", str(x.name), snap(x.index), snap(np.asarray(x)))
    if isinstance(x, pd.Index):
        return ("i", str(x.dtype), [str(n) for n in x.names], x.tolist())
    if isinstance(x, dict):
        return ("d", [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return ("o", type(x).__name__)


def result(res):
    """Public attributes of a result object (a triangle attribute is watched separately)."""
    out = {}
    for k, v in vars(res).items():
        if k.startswith("_") or k == "tri":
            continue
        out[k] = snap(v)
    return out


def same(a, b, tol=0.):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            if tol:
                return bool(np.allclose(a, b, rtol=tol, atol=0, equal_nan=True))
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float):
        if a != a and b != b:
            return True
        return a == b or (tol and abs(a - b) <= tol * max(abs(a), abs(b)))
    if isinstance(a, tuple) and a[:1] == ("~",) and b[:1] == ("~",):       # found by an iterative search
        return bool(np.allclose(a[1], b[1], rtol=1e-6, atol=1e-9, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    return a == b


def diff(a, b, path="", tol=0.):
    """First difference, for the violation message."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, tol):
                return diff(x, y, path + "/{}".format(k), tol)
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        for k in a:
            if not same(a[k], b[k], tol):
                return diff(a[k], b[k], path + "/" + str(k), tol)
    return "{}: {!r:.200} -> {!r:.200}".format(path, a, b)
