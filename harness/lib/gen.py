"""
Workload generators. A case is plain JSON, so that any violation can be replayed.

A loss history is described by its cell totals (incremental amounts by origin and
development position, null where nothing was recorded) and labels; `records` turns it
into the tabular data a user would hold: shuffled, split over several records, with
extra columns, records without an amount, other field names or an unusual index.
"""
import numpy as np
import pandas as pd

FIELDS = [
    ["origin", "dev", "value"], ["origin", "dev", "value"], ["AY", "age", "loss"],
    ["accident_year", "maturity", "paid"], ["dev", "origin", "value"], ["value", "dev", "origin"],
    ["o", "cum", "incr"], ["index", "devp", "latest"], ["origin", "age", "value"],
    ["origin", "dev", "amount"], ["yr", "dev", "value"],
    ["origin", "value", "dev"], ["dev", "value", "origin"], ["value", "origin", "dev"],
    ["maturity", "ldf", "reserve"], ["latest", "dev", "ultimate"], ["sim", "l_act_dev", "rectype"],
    ["row_offset", "index", "T"], ["columns", "0", "a b"],
]
EXTRA = ["cum", "incr", "cumval", "note", "latest", "level_0", "weight", "variable", "origin", "dev", "value"]


def ri(rng, lo, hi):
    return int(rng.randint(lo, hi + 1))


def pick(rng, seq):
    return seq[int(rng.randint(len(seq)))]


def origin_labels(rng, n, style=None):
    style = style or pick(rng, ["years", "years", "index", "zero", "cross", "gapped", "big", "small", "stamps"])
    if style == "years":
        s = ri(rng, 1950, 2030)
        return list(range(s, s + n))
    if style == "index":
        return list(range(1, n + 1))
    if style == "zero":
        return list(range(0, n))
    if style == "cross":      # labels whose text order is not their numeric order
        s = pick(rng, [10, 100, 1000]) - ri(rng, 1, max(1, n - 1))
        return list(range(s, s + n))
    if style == "gapped":
        return [int(v) for v in np.cumsum(rng.randint(1, 5, n)) + ri(rng, 0, 2000)]
    if style == "stamps":     # yyyymmddhhmm: beyond 32 bits
        return [202001010000 + 10000000000 * int(v) for v in range(n)] if rng.rand() < .5 else [int(v) for v in 2 ** 31 - 2 + np.arange(n)]
    if style == "big":
        return [int(v) for v in 200001 + np.arange(n) * 100]
    return [int(v) for v in ri(rng, 3, 40) + np.arange(n) * 2]


def dev_labels(rng, n, style=None):
    style = style or pick(rng, ["one", "one", "one", "zero", "months", "half", "offset", "uneven", "step", "large"])
    if style == "one":
        return list(range(1, n + 1))
    if style == "zero":
        return list(range(0, n))
    if style == "months":
        return [12 * (i + 1) for i in range(n)]
    if style == "half":
        return [6 + 12 * i for i in range(n)]
    if style == "offset":
        s = ri(rng, 2, 12)
        return list(range(s, s + n))
    if style == "step":
        k = ri(rng, 2, 9)
        return [k * (i + 1) for i in range(n)]
    if style == "large":      # days, or beyond 16 and 32 bits
        a, k = pick(rng, [[365, 365], [20000, 10000], [99998, 1], [10 ** 6, 10 ** 5], [2 ** 31 - 2, 1]])
        return [a + k * i for i in range(n)]
    return [int(v) for v in np.cumsum(rng.randint(1, 8, n))]     # uneven


CUM_STYLES = ["smooth", "smooth", "wild", "integer", "shorttail", "neg", "ties", "nearties", "flatcol", "regular", "recov", "calm"]


def cum_matrix(rng, n, style=None, scale=None):
    """Positive cumulative run-off triangle (n x n, nan below the latest diagonal)."""
    style = style or pick(rng, CUM_STYLES)
    if scale is None:
        scale = float(pick(rng, [1., 1., 1., 1e-6, 1e-3, .01, 10., 1e3, 1e6]))
    base = np.exp(rng.normal(0, .6 if style != "wild" else 1.5, n)) * 1000.
    fac = 1. + 2.5 * np.exp(-.8 * np.arange(n - 1)) * (.5 + rng.rand(n - 1)) + .01
    C = np.full((n, n), np.nan)
    tiepool = [1., 1.5, 2., 1.25, 1.75]
    nz = ri(rng, 1, max(1, n // 2))
    calm = float(pick(rng, [1e-2, 1e-3, 1e-4]))
    for i in range(n):
        C[i, 0] = base[i]
        if style in ("integer", "ties", "nearties"):
            C[i, 0] = float(max(1, round(base[i]))) * (64 if style != "integer" else 1)
        for j in range(1, n - i):
            f = fac[j - 1]
            if style in ("smooth", "integer", "recov", "twins"):
                f = 1 + (f - 1) * np.exp(rng.normal(0, .35))
            elif style == "calm":       # hardly any noise: tiny residuals, large gamma shapes
                f = 1 + (f - 1) * np.exp(rng.normal(0, 1.) * calm)
            elif style == "wild":
                f = 1 + (f - 1) * np.exp(rng.normal(0, 1.3))
            elif style == "shorttail":
                f = 1. if j >= n - nz else 1 + (f - 1) * np.exp(rng.normal(0, .35))
            elif style == "neg":
                f = f * np.exp(rng.normal(-.1, .25)) if j > 1 else 1 + (f - 1) * np.exp(rng.normal(0, .4))
                f = max(f, .55)
            elif style == "ties":
                f = pick(rng, tiepool[:3] if rng.rand() < .7 else tiepool)
            elif style == "nearties":
                f = pick(rng, [1.5, 1.25, 2.]) * (1 + pick(rng, [0, 1, -1, 2]) * 1e-6)
            elif style == "flatcol":
                f = f if (j % 2 == 0) else 1 + (f - 1) * np.exp(rng.normal(0, .3))
            elif style == "regular":
                f = f
            C[i, j] = C[i, j - 1] * f
            if style == "integer":
                C[i, j] = round(C[i, j])
    if style == "recov":
        recoveries(rng, C)
    if style == "twins":        # some origins develop alike to the last digit, until nothing more is paid
        k = ri(rng, 1, max(1, (n - 2) // 2))
        for j in range(n - 1 - k, n):
            C[:n - j, j] = C[:n - j, j - 1]
        for i in range(1, k + 1):
            C[i, :n - i] = C[0, :n - i]
    if style == "integer":
        return C, style
    return C * scale, style


def recoveries(rng, C):
    """Recoveries exceed the payments of one or two origins, whose cumulative amounts turn negative."""
    n = len(C)
    for i in [int(v) for v in 1 + rng.permutation(max(n - 2, 0))[:ri(rng, 1, 2)]]:
        D = C.copy()
        j = ri(rng, 1, n - 1 - i)
        D[i, j:] *= -rng.uniform(.05, .9)
        # the totals that factors are formed from stay clearly positive
        if all(D[:k, c].sum() > .3 * np.abs(D[:k, c]).sum() for c in range(n) for k in (n - c, n - c - 1) if k > 0):
            C[:, :] = D


def residual_size(C):
    """Second largest bootstrap residual that enters the sampling pool, relative to the amounts."""
    from lib import oracle
    with np.errstate(all="ignore"):
        m = oracle.boot_fit(C)[2]
        r = (np.diff(C, axis=1, prepend=0.) - m) / np.sqrt(np.abs(m))
    r = np.abs(r[:-1, :-1])
    r = np.sort(r[np.isfinite(r)])
    return r[-2] / np.sqrt(np.nanmax(np.abs(C))) if r.size > 1 else 0.


def incr_of(C):
    I = np.diff(C, axis=1, prepend=0.)
    return I


def factor(rng, lo=.9, hi=1.9):
    """A selected factor, given to few decimals or to all of them."""
    x = float(rng.uniform(lo, hi))
    k = pick(rng, [2, 3, 4, 9, None, None])
    return x if k is None else round(x, k)


def tail(rng):
    return float(pick(rng, [1., 1., 1.05, .98, 1.5, 1.0001, factor(rng, 1., 1.2), factor(rng, .9, 1.)]))


def tolist(M):
    return [[None if (v is None or np.isnan(v)) else float(v) for v in row] for row in np.asarray(M, dtype=float)]


def toarr(cells):
    return np.array([[np.nan if v is None else v for v in row] for row in cells], dtype=float)


def history(rng, n=None, style=None, scale=None, ostyle=None, dstyle=None, lo=2, hi=9):
    """A complete square run-off history with positive cumulative amounts."""
    if n is None:
        x = rng.rand()
        n = ri(rng, lo, hi) if x < .85 else ri(rng, max(lo, 10), max(hi, 13)) if x < .98 else ri(rng, 14, 20)
    asked = style
    for _ in range(50):
        C, style = cum_matrix(rng, n, asked, scale)
        if n < 4 or style in ("regular", "flatcol") or residual_size(C) > 1e-9:
            break           # a perfect fit by accident leaves the bootstrap nothing to resample
    return {
        "n": n, "style": style, "cells": tolist(incr_of(C)),
        "origins": origin_labels(rng, n, ostyle), "devs": dev_labels(rng, n, dstyle),
    }


def ragged(rng, lo=1, hi=9, positive_first=False, shape=None):
    """
    Any recorded history: run-off triangles with holes, rectangles, sparse books; first
    period amounts may be zero or negative. Every origin and period has some amount.
    """
    n = ri(rng, lo, hi)
    shape = shape or pick(rng, ["tri", "tri", "holes", "holes", "rect", "sparse", "firstgap"])
    m = n if shape in ("tri", "holes", "firstgap") else max(1, n + ri(rng, -3, 3))
    scale = pick(rng, [1., 1., 100., 1e-3, 1e6, 1e9])
    if rng.rand() < .5:
        A = rng.randint(-30 if rng.rand() < .5 else 0, 200, (n, m)).astype(float) * pick(rng, [1., 1., 1., 1e4, 1e8])
    else:
        A = rng.normal(60, 60, (n, m)) * scale
    if rng.rand() < .3:
        A[rng.rand(n, m) < .2] = 0.
    keep = np.ones((n, m), bool)
    if shape in ("tri", "holes", "firstgap"):
        keep = np.add.outer(np.arange(n), np.arange(m)) < n
    if shape == "holes":
        keep &= rng.rand(n, m) > .25
    if shape == "sparse":
        keep &= rng.rand(n, m) > .5
    if shape == "firstgap":
        keep[:, 0] &= rng.rand(n) > .4
    for i in range(n):
        if not keep[i].any():
            keep[i, ri(rng, 0, max(0, min(m, n - i) - 1))] = True
    for j in range(m):
        if not keep[:, j].any():
            keep[ri(rng, 0, max(0, min(n, n - j) - 1)) if n - j > 0 else 0, j] = True
    if positive_first:
        A[:, 0] = np.where(A[:, 0] <= 0, 1 + np.abs(A[:, 0]), A[:, 0])
    A[~keep] = np.nan
    return {"n": n, "style": shape, "cells": tolist(A), "origins": origin_labels(rng, n), "devs": dev_labels(rng, m)}


def presentation(rng, plain=False):
    if plain:
        return {"seed": 0, "shuffle": False, "split": 0., "extra": [], "fields": FIELDS[0], "nanrows": 0, "index": "range"}
    return {
        "seed": ri(rng, 0, 10 ** 6), "shuffle": bool(rng.rand() < .7),
        "split": float(pick(rng, [0., 0., .3, .8])), "extra": [EXTRA[k] for k in range(len(EXTRA)) if rng.rand() < .2],
        "fields": pick(rng, FIELDS), "nanrows": int(pick(rng, [0, 0, 1, 4])),
        "index": pick(rng, ["range", "range", "dup", "str", "shifted", "neg"]), "ints": bool(rng.rand() < .5),
    }


def records(case, pres, amounts=None):
    """Tabular records holding the case's incremental cell totals."""
    rng = np.random.RandomState(pres["seed"])
    A = toarr(case["cells"]) if amounts is None else amounts
    rows = []
    for i, o in enumerate(case["origins"]):
        for j, d in enumerate(case["devs"]):
            v = A[i, j]
            if np.isnan(v):
                continue
            parts = [v]
            if pres["split"] and rng.rand() < pres["split"]:
                k = ri(rng, 2, 4)
                # parts of either sign, so that single records differ in sign from their cell
                if v == 0:
                    x = float(ri(rng, 1, 50))
                    parts = [x, -x]
                elif v == int(v) and abs(v) < 1e9:
                    cut = [float(round(x)) for x in rng.uniform(-1.5, 1.5, k - 1) * (abs(v) + 3.)]
                    parts = cut + [v - sum(cut)]
                else:
                    cut = [float(x) for x in rng.uniform(-1.5, 1.5, k - 1) * abs(v)]
                    parts = cut + [v - sum(cut)]
            rows += [(o, d, p) for p in parts]
    for _ in range(pres["nanrows"]):
        rows.append((pick(rng, case["origins"]), pick(rng, case["devs"]), np.nan))
    if pres["shuffle"]:
        rng.shuffle(rows)
        rows = [(int(a), int(b), float(c)) for a, b, c in rows]
    return frame(rows, pres, rng)


def frame(rows, pres, rng=None):
    rng = rng or np.random.RandomState(pres["seed"])
    o, d, v = pres["fields"]
    df = pd.DataFrame({
        o: np.array([r[0] for r in rows], dtype=int), d: np.array([r[1] for r in rows], dtype=int),
        v: np.array([r[2] for r in rows], dtype=float),
    })
    if pres.get("ints") and df[v].notna().all() and (df[v] == df[v].round()).all():
        df[v] = df[v].astype(int)
    for e in pres["extra"]:
        if e not in df.columns:
            df[e] = rng.choice(["a", "b"], len(df)) if e in ("note", "variable") else rng.uniform(-5, 5, len(df))
    if pres["extra"] and pres["shuffle"]:
        df = df[list(rng.permutation(df.columns.values))]
    m = len(df)
    if pres["index"] == "dup":
        df.index = rng.randint(0, max(1, m // 3), m)
    elif pres["index"] == "str":
        df.index = ["r{}".format(k) for k in range(m)]
    elif pres["index"] == "shifted":
        df.index = np.arange(m) + 7
    elif pres["index"] == "neg":
        df.index = -np.arange(m)
    return df


ROUTES = ["tab_incr", "tab_incr", "tab_cum", "tri_incr", "tri_cum", "conv", "tblround"]


def build(case, mon=None, pres=None, route=None, tri_type="cum"):
    """Build the case's triangle through the public API, by any of the supported routes."""
    import trikit
    pres = pres or case.get("pres") or presentation(None, plain=True)
    route = route or case.get("route", "tab_incr")
    call = mon.call if mon is not None else (lambda kind, fn, *a, **k: fn(*a, **k))
    o, d, v = pres["fields"]
    kw = dict(origin=o, dev=d, value=v)
    A = toarr(case["cells"])
    if route == "tab_incr":
        return call("totri", trikit.totri, records(case, pres), tri_type=tri_type, **kw)
    if route == "tab_cum":
        return call("totri", trikit.totri, records(case, pres, amounts=gcum(A)), tri_type=tri_type, data_format="cum", **kw)
    if route in ("tri_incr", "tri_cum"):
        M = A if route == "tri_incr" else gcum(A)
        df = pd.DataFrame(M, index=case["origins"], columns=case["devs"])
        if pres["seed"] % 3 == 1:
            df.columns = [str(c) for c in df.columns]
        if pres["shuffle"]:
            rng = np.random.RandomState(pres["seed"])
            df = df.iloc[rng.permutation(len(df)), rng.permutation(df.shape[1])]
        if pres["seed"] % 4 == 1:
            df.index.name, df.columns.name = "AY", "age"
        return call("totri", trikit.totri, df, tri_type=tri_type, data_shape="triangle",
                    data_format="incr" if route == "tri_incr" else "cum", **(kw if pres["seed"] % 2 else {}))
    t = call("totri", trikit.totri, records(case, pres), tri_type="incr" if route == "conv" else "cum", **kw)
    if route == "conv":
        if tri_type == "incr":
            return t
        return call("to_cum", t.to_cum)
    df = call("to_tbl", t.to_tbl)
    return call("totri", trikit.totri, df, tri_type=tri_type, data_format="cum", **kw)


def gcum(A):
    """Cumulative amounts at the recorded cells (missing cells stay missing)."""
    M = np.full(A.shape, np.nan)
    for i in range(A.shape[0]):
        run = 0.
        for j in range(A.shape[1]):
            if not np.isnan(A[i, j]):
                run += A[i, j]
                M[i, j] = run
    return M


# ---------------------------------------------------------------- prior activity on a triangle

WARM = ["a2a", "a2a_avgs", "a2aind", "latest", "triind", "maturity", "rlvi", "ranked_a2a", "a2a_assignment",
        "base_cl", "base_med", "mack0", "mack2", "boot", "to_incr", "to_tbl", "str", "diagonal", "copy", "a2a_lvi",
        "toggle", "base_sel", "mack_tests", "devp", "nbr_cells", "latest_by_origin", "clvi"]


def warm_ops(rng, k=None, ops=None):
    k = pick(rng, [0, 0, 1, 2, 4]) if k is None else k
    return [pick(rng, ops or WARM) for _ in range(k)]


def warm(tri, ops, mon=None):
    """Ordinary requests made before the observed one; none of them may matter."""
    n = len(tri.columns)
    for op in ops:
        if mon is not None:
            mon.seen("prior:" + op)
        if True:
            if op == "a2a_avgs":
                tri.a2a_avgs()
            elif op == "base_cl":
                tri.base_cl()
            elif op == "base_med":
                tri.base_cl(sel="all-medial", tail=1.07)
            elif op == "mack0" and n >= 4:
                tri.mack_cl(alpha=0, dist="norm", q=.9)
            elif op == "mack2" and n >= 4:
                tri.mack_cl(alpha=2)
            elif op == "mack_tests" and n >= 5:
                m = tri.mack_cl()
                m.devp_corr_test()
                m.cy_effects_test()
                m.get_quantiles([.1, .9])
            elif op == "boot" and n >= 4:
                b = tri.boot_cl(sims=3, random_state=5)
                b.get_quantiles(.5)
            elif op == "to_incr":
                tri.to_incr()
            elif op == "to_tbl":
                tri.to_tbl(dropna=False)
                tri.to_tbl()
            elif op == "str":
                str(tri), repr(tri)
            elif op == "diagonal":
                tri.diagonal(-1), tri.diagonal()
            elif op == "copy":
                tri.copy(deep=True)
            elif op == "toggle":
                a = tri.a2aind
                o, d = a.index[0], a.columns[0]
                tri.a2aind = (o, d, 0)
                tri.a2a_avgs()
                tri.base_cl()
                tri.a2aind = (o, d, 1)
            elif op == "base_sel":
                tri.base_cl(sel=[1.1] * (n - 1), tail=1.01)
            elif op in ("mack0", "mack2", "boot", "mack_tests") or (op == "ranked_a2a" and n < 4):
                pass
            else:
                getattr(tri, op)
