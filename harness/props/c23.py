"""C23: bootstrap summary and quantiles are those of the recorded distribution."""
import numpy as np
from lib import gen, oracle, work, boots
from lib.cmp import same, labels
from props.c17 import qlist, wrap, pct

RULE = ("Random complete triangles of 4-9 origins with 1-300 replicates, quantile requests of every form and "
        "interpolation rule, with and without lower bounds; non-trivial: at least five origins and ten replicates.")
MUST = ["dist", "total", "summary", "std_error", "quantile", "get_quantiles", "lower-bound", "origin_dist"]
INTERP = ["linear", "lower", "higher", "midpoint", "nearest"]


def cases(rng, tier):
    k = 130 if tier == "quick" else 2500
    out = []
    for i in range(k):
        c = boots.case(rng, lo=4, hi=8)
        c["sims"] = gen.pick(rng, [2, 3, 7, 10, 40, 100, 300])
        if i % 13 == 5:
            c["sims"] = gen.ri(rng, 900, 2100)
        c["q"], c["two"], c["gq"] = qlist(rng), bool(rng.rand() < .4), [qlist(rng), qlist(rng)]
        c["qform"] = gen.pick(rng, ["list", "tuple", "array"])
        c["interp"], c["gi"] = gen.pick(rng, INTERP), [gen.pick(rng, INTERP), gen.pick(rng, INTERP)]
        c["lb"] = gen.pick(rng, [None, 0, 0, "frac", "frac"])
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5 and c["sims"] >= 10


def quantile(x, q, how):
    """Empirical quantile by its definition on the order statistics."""
    x = np.sort(np.asarray(x, float))
    h = (len(x) - 1) * q
    h = round(h, 9) if abs(h - round(h)) < 1e-9 else h
    lo, hi = int(np.floor(h)), int(np.ceil(h))
    if how == "linear":
        return x[lo] + (h - lo) * (x[hi] - x[lo])
    if how == "lower":
        return x[lo]
    if how == "higher":
        return x[hi]
    if how == "midpoint":
        return (x[lo] + x[hi]) / 2. if lo != hi else x[lo]
    # nearest: ties go to the even position
    return x[int(np.round(h))]


def edge(N, q):
    """Position falls within rounding of a step of the non-linear rules."""
    h = (N - 1) * q
    return abs(h * 2 - round(h * 2)) < 1e-7


def run(c, mon):
    n, S = c["n"], c["sims"]
    t = work.build(c, mon)
    C = work.cumobs(t)
    r = mon.call("boot_cl", t.boot_cl, sims=S, parametric=c["parametric"], random_state=c["rs"], q=wrap(c["q"], c["qform"]),
                 two_sided=c["two"], interpolation=c["interp"])
    boots.usable(r, work.cumobs(t), mon)
    q = boots.cube(mon, "dist", c, r, ["ultimate", "latest", "samp_cum"])
    obs = boots.observed(n)
    names = list(c["origins"]) + ["total"]
    d = r.reserve_dist
    mon.check("dist", len(d) == S * (n + 1), "{} rows for {} replicates", len(d), S)
    got = {}
    keys = [(s, o if isinstance(o, str) else int(o)) for s, o in zip((int(v) for v in d["sim"]), d["origin"])]
    mon.check("dist", len(set(keys)) == len(keys) and set(keys) == {(s, o) for s in range(S) for o in names}, "replicates and origins not covered once each")
    for k in ("latest", "ultimate", "reserve"):
        m = dict(zip(keys, d[k].astype(float)))
        got[k] = np.array([[m[(s, o)] for o in names] for s in range(S)])
    ult = q["ultimate"][:, :, n - 1]
    lat = np.array([[q["samp_cum"][s, i, n - 1 - i] for i in range(n)] for s in range(S)])
    big = np.abs(q["ultimate"]).max()
    same(mon, "dist", got["ultimate"][:, :n], ult, 1e-12, big, what="ultimates recorded")
    same(mon, "dist", got["latest"][:, :n], lat, 1e-12, big, what="latest recorded")
    same(mon, "dist", got["reserve"][:, :n], ult - lat, 1e-12, big, what="reserves recorded")
    mon.check("dist", (got["reserve"][:, 0] == 0).all(), "the oldest origin holds a reserve")
    for k in got:
        same(mon, "total", got[k][:, n], got[k][:, :n].sum(axis=1), 1e-12, big * n, what="total " + k)
    R = got["reserve"]
    # summary
    Sm = r.summary
    labels(mon, "summary", Sm.index, names, "rows")
    latest = np.array([C[i, n - 1 - i] for i in range(n)])
    ue = ult.mean(axis=0)
    ue[0] = latest[0]
    same(mon, "summary", Sm["latest"].values.astype(float), np.append(latest, latest.sum()), 1e-11, what="latest")
    same(mon, "summary", Sm["ultimate"].values.astype(float), np.append(ue, ue.sum()), 1e-10, big, what="ultimate")
    res = np.append(ue - latest, (ue - latest).sum())
    same(mon, "summary", Sm["reserve"].values.astype(float), res, 1e-10, big * n, what="reserve")
    se = R.std(axis=0, ddof=1)
    same(mon, "std_error", Sm["std_error"].values.astype(float), se, 1e-8, big * 1e-3, what="std error")
    same(mon, "std_error", r.std_error.values.astype(float), se, 1e-8, big * 1e-3, what="std_error attribute")
    cv, so = Sm["cv"].values.astype(float), Sm["std_error"].values.astype(float)
    ro = Sm["reserve"].values.astype(float)
    for i in range(1, n + 1):
        if ro[i] != 0:
            same(mon, "std_error", [cv[i]], [so[i] / ro[i]], 1e-9, what="cv of {}".format(names[i]))
    # quantiles
    tol = 1e-9 * big * n
    def col(kind, obs_, x, how, lb=None):
        for k in range(n + 1):
            if how != "linear" and edge(S, x):
                e = {quantile(R[:, k], min(max(x + dx, 0), 1), how) for dx in (-1e-9, 0, 1e-9)}
            else:
                e = {quantile(R[:, k], x, how)}
            if lb is not None:
                e = {max(v, lb) for v in e}
            mon.check(kind, any(abs(obs_[k] - v) <= tol for v in e), "quantile {} ({}) of {}: {} expected {}", x, how, names[k], obs_[k], e)
    qs = c["q"] if isinstance(c["q"], list) else [c["q"]]
    if c["two"]:
        qs = [(1 - x) / 2 for x in qs] + [(1 + x) / 2 for x in qs]
    heads = {pct(x) + "%": x for x in sorted(set(qs))}
    cols = [x for x in Sm.columns if x.endswith("%")]
    mon.check("quantile", cols == list(heads), "columns {} expected {}", cols, list(heads))
    for h, x in heads.items():
        col("quantile", Sm[h].values.astype(float), x, c["interp"])
    for gq, how in zip(c["gq"], c["gi"]):
        xs = sorted(set(gq)) if isinstance(gq, list) else [gq]
        g = mon.call("get_quantiles", r.get_quantiles, wrap(gq, c["qform"]), interpolation=how)
        labels(mon, "get_quantiles", g.index, names, "rows")
        mon.check("get_quantiles", g.shape[1] == len(xs), "{} columns for {}", g.shape[1], xs)
        for k, x in enumerate(xs):
            mon.check("get_quantiles", g.columns[k].startswith(pct(x)), "column {} for {}", g.columns[k], x)
            col("get_quantiles", g.iloc[:, k].values.astype(float), x, how)
        if c["lb"] is not None:
            lb = 0 if c["lb"] == 0 else float(np.median(R[:, n]) * .3)
            g = mon.call("get_quantiles", r.get_quantiles, wrap(gq, c["qform"]), interpolation=how, lb=lb)
            for k, x in enumerate(xs):
                col("lower-bound", g.iloc[:, k].values.astype(float), x, how, lb)
    od = r.origin_dist
    key = {(int(s), o if isinstance(o, str) else int(o)): v for s, o, v in zip(od["sim"], od["origin"], od["reserve"])}
    mon.check("origin_dist", len(key) == len(od) == S * (n + 1), "origin_dist has {} rows", len(od))
    same(mon, "origin_dist", [key[(s, o)] for s in range(S) for o in names], R.ravel(), 1e-12, big, what="origin_dist")
