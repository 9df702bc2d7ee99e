"""C17: Mack quantiles come from the distribution with the estimated moments."""
import numpy as np
from scipy.stats import norm
from lib import gen, work
from lib.cmp import same, labels
from props.c15 import excl_for

RULE = ("Random complete triangles, alpha 0/1/2, both distributions, quantile requests of every form (scalars, lists, "
        "repeats, unordered, two-sided); moments and every shown quantile recomputed in closed form; "
        "non-trivial: at least five origins.")
MUST = ["moments", "summary-quantile", "get_quantiles", "monotone", "reject"]
ASSUMPTIONS = ["quantiles of an origin without uncertainty (zero standard error) or, for the log-normal, without a positive "
               "reserve are undefined and not decided"]


def qlist(rng):
    form = gen.pick(rng, ["scalar", "list", "list", "tuple", "array", "repeat", "fine", "far"])
    if form == "scalar":
        return gen.pick(rng, [.5, .95, .75, .995, .01, .11, .125])
    if form == "fine":
        return [.00125, .99875, .333, .5]
    if form == "far":
        return [float(gen.pick(rng, [.00001, .00005, .0001])), .5, float(gen.pick(rng, [.9995, .9999, .99995, .99999]))]
    k = gen.ri(rng, 1, 5)
    q = [float(gen.pick(rng, [.005, .01, .02, .05, .1, .11, .12, .13, .21, .25, .5, .625, .75, .9, .95, .975, .99, .995, .999])) for _ in range(k)]
    return q + q[:1] if form == "repeat" else q


def cases(rng, tier):
    k = 110 if tier == "quick" else 2500
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=7, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "shorttail", "ties"]))
        c["excl"] = excl_for(rng, c["n"]) if rng.rand() < .2 else []
        c["alpha"], c["dist"] = gen.ri(rng, 0, 2), ["norm", "lognorm"][i % 2]
        c["q"], c["two"], c["gq"] = qlist(rng), bool(rng.rand() < .4), [qlist(rng), qlist(rng)]
        c["qform"] = gen.pick(rng, ["list", "tuple", "array"])
        c["bad"] = gen.pick(rng, ["gamma", "normal", "", "log", "logistic", "lognormal", "norms", "normlog", "lognorm2"])
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def wrap(q, form):
    if not isinstance(q, list):
        return q
    return tuple(q) if form == "tuple" else (np.array(q) if form == "array" else q)


def quant(dist, res, se, q):
    if dist == "norm":
        return res + se * norm.ppf(q)
    s = np.sqrt(np.log1p((se / res) ** 2))
    return np.exp(np.log(res) - s * s / 2 + s * norm.ppf(q))


def pct(q):
    return "{:.5f}".format(100 * q).rstrip("0").rstrip(".")


def run(c, mon):
    n, dist = c["n"], c["dist"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    r = mon.call("mack_cl", t.mack_cl, alpha=c["alpha"], dist=dist, q=wrap(c["q"], c["qform"]), two_sided=c["two"])
    S = r.summary
    res, se = np.array(S["reserve"].values, float), np.array(S["std_error"].values, float)
    names = list(S.index)
    defined = [i for i in range(n + 1) if se[i] > 0 and (dist == "norm" or res[i] > 0) and i != 0 and abs(se[i]) > 3e-5 * abs(res[i])]
    mon.seen("uncertain-origins", len(defined))
    mon.check("moments", r.dist == dist, "dist {}", r.dist)
    for i in defined:
        rv = r.rvs[names[i]]
        same(mon, "moments", [rv.mean(), rv.std()], [res[i], se[i]], 1e-6, what="{} mean and standard deviation of {}".format(dist, names[i]))
    qs = c["q"] if isinstance(c["q"], list) else [c["q"]]
    if c["two"]:
        qs = [(1 - x) / 2 for x in qs] + [(1 + x) / 2 for x in qs]
    qs = sorted(set(qs))
    cols = [x for x in S.columns if x.endswith("%")]
    heads = {}
    for x in qs:
        heads[pct(x) + "%"] = x
    mon.check("summary-quantile", cols == list(heads), "columns {} expected {}", cols, list(heads))
    prev = None
    for h, x in heads.items():
        col = np.array(S[h].values, float)
        mon.check("summary-quantile", np.isnan(col[0]), "oldest origin shows a quantile {}", col[0])
        for i in defined:
            same(mon, "summary-quantile", [col[i]], [quant(dist, res[i], se[i], x)], 1e-7, abs(se[i]) * 10, what="{} {} of {}".format(dist, h, names[i]))
        if prev is not None:
            mon.check("monotone", all(col[i] >= prev[i] for i in defined), "{} below the preceding quantile", h)
        prev = col
    for gq in c["gq"]:
        g = mon.call("get_quantiles", r.get_quantiles, wrap(gq, c["qform"]))
        xs = sorted(set(gq)) if isinstance(gq, list) else [gq]
        labels(mon, "get_quantiles", g.index, names, "rows")
        mon.check("get_quantiles", g.shape[1] == len(xs), "{} columns for {}", g.shape[1], xs)
        prev = None
        for k, x in enumerate(xs):
            col = np.array(g.iloc[:, k].values, float)
            mon.check("get_quantiles", g.columns[k].startswith(pct(x)), "column {} for {}", g.columns[k], x)
            for i in defined:
                same(mon, "get_quantiles", [col[i]], [quant(dist, res[i], se[i], x)], 1e-7, abs(se[i]) * 10, what="{} q={} of {}".format(dist, x, names[i]))
            if prev is not None:
                mon.check("monotone", all(col[i] >= prev[i] for i in defined), "quantile {} below the preceding", x)
            prev = col
    mon.raises("reject", ValueError, t.mack_cl, alpha=c["alpha"], dist=c["bad"])
