"""Comparison helpers."""
import numpy as np


def arr(x):
    return np.asarray(x, dtype=float)


def close(a, b, rtol=1e-9, scale=None, atol=0.):
    """nan-aware elementwise closeness; scale: magnitude below rtol of which differences are rounding."""
    a, b = np.broadcast_arrays(arr(a), arr(b))
    if scale is not None:
        scale = np.broadcast_to(arr(scale), a.shape)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    a, b = a[~na], b[~nb]
    if scale is not None:
        scale = scale[~na]
    ia, ib = np.isinf(a), np.isinf(b)
    if not (np.array_equal(ia, ib) and np.array_equal(a[ia], b[ib])):
        return False
    a, b = a[~ia], b[~ib]
    if scale is not None:
        scale = scale[~ia]
    tol = atol + rtol * np.maximum(np.abs(a), np.abs(b))
    if scale is not None:
        tol = tol + rtol * scale
    return bool(np.all(np.abs(a - b) <= tol))


def worst(a, b):
    try:
        a, b = np.broadcast_arrays(arr(a), arr(b))
    except Exception:
        return "shapes {} {}".format(np.shape(a), np.shape(b))
    bad = np.isnan(a) != np.isnan(b)
    d = np.where(bad, np.inf, np.abs(a - b) / np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-300))
    d = np.where(np.isnan(d), -1., d)
    if d.size == 0:
        return "empty"
    k = np.unravel_index(int(np.argmax(d)), d.shape)
    return "at {}: observed {!r}, expected {!r}".format(tuple(int(v) for v in k), float(a[k]), float(b[k]))


def same(mon, kind, obs, exp, rtol=1e-9, scale=None, atol=0., what=""):
    o, e = arr(obs), arr(exp)
    mon.check(kind, o.shape == e.shape, "{}: shape {} expected {}", what, o.shape, e.shape)
    mon.check(kind, close(o, e, rtol, scale, atol), "{}: {}", what, worst(o, e))


def labels(mon, kind, obs, exp, what=""):
    o, e = [_lab(v) for v in obs], [_lab(v) for v in exp]
    mon.check(kind, o == e, "{}: labels {} expected {}", what, o, e)


def _lab(v):
    if isinstance(v, (np.integer, int)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, (np.floating, float)):
        return float(v)
    return v
