"""C30: bootstrap exhibits draw the recorded simulations."""
import numpy as np
from lib import gen, oracle, work, plots, boots
from lib.cmp import same, labels
from props.c25 import ordinal

RULE = ("Random complete triangles of 4-7 origins, 5-120 replicates, plotted for random two-sided intervals, styling and bin "
        "counts; every artist is read back and compared with the triangle, an independent projection and the recorded "
        "simulations; non-trivial: at least five origins.")
MUST = ["lines", "quantiles", "labels", "fill", "hist", "median"]


def cases(rng, tier):
    k = 40 if tier == "quick" else 700
    out = []
    for i in range(k):
        c = boots.case(rng, lo=4, hi=6, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "shorttail"]),
                       scale=float(gen.pick(rng, [1., 1., .01, 10., 1e3, 1e6])))
        c["sims"] = gen.pick(rng, [5, 20, 50, 120, 400 if i % 3 == 0 else 200])
        c["q"] = gen.pick(rng, [None, .9, .5, .95, .8, .6, .99, 1.])
        c["qform"] = gen.pick(rng, ["scalar", "scalar", "list", "tuple", "array"])
        c["col_wrap"] = gen.pick(rng, [4, 4, 2, 5])
        c["hue"] = bool(rng.rand() < .3)
        c["bins"] = gen.pick(rng, [None, None, 10, 7])
        c["between"] = gen.pick(rng, [[], ["hist"], ["plot"], ["get_quantiles"]])
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def run(c, mon):
    n, S = c["n"], c["sims"]
    t = work.build(c, mon)
    C = work.cumobs(t)
    O, D = c["origins"], c["devs"]
    r = mon.call("boot_cl", t.boot_cl, sims=S, parametric=c["parametric"], random_state=c["rs"])
    boots.usable(r, work.cumobs(t), mon)
    U = boots.cube(mon, "lines", c, r, ["ultimate"])["ultimate"]
    B = oracle.base(C, oracle.weighted_ldfs(C), 1.)
    sq = B["sq"]
    for op in c["between"]:
        mon.call(op, getattr(r, op), *([.5] if op == "get_quantiles" else []))
    kw = dict(col_wrap=c["col_wrap"])
    if c["q"] is not None:
        kw["q"] = {"scalar": c["q"], "list": [c["q"]], "tuple": (c["q"],), "array": np.array([c["q"]])}[c["qform"]]
    if c["hue"]:
        kw["hue_kws"] = dict(linewidth=[1, 1, 2, 2])
    fig = plots.draw(mon, "lines", r.plot, **kw)
    F = plots.facets(mon, "labels", fig, list(O))
    q = .9 if c["q"] is None else c["q"]
    lo, hi = (1 - q) / 2, (1 + q) / 2
    for i, o in enumerate(O):
        k = n - 1 - i
        L = plots.lines(F[o])
        mon.check("labels", set(L) == {"forecast", "actual", ordinal(lo), ordinal(hi)} and all(len(v) == 1 for v in L.values()), "origin {} holds the lines {}", o, sorted(L))
        x, y = L["actual"][0]
        same(mon, "lines", x, D[:k + 1], 0, what="actual periods of {}".format(o))
        same(mon, "lines", y, C[i, :k + 1], 1e-12, what="actual amounts of {}".format(o))
        x, y = L["forecast"][0]
        same(mon, "lines", x[:-1], D[k:], 0, what="projected periods of {}".format(o))
        mon.check("lines", x[-1] > D[-1], "ultimate drawn at {}", x[-1])
        same(mon, "lines", y, np.append(sq[i, k:], sq[i, -1]), 1e-9, what="projected amounts of {}".format(o))
        big = np.abs(U[:, i]).max()
        V = {}
        for p in (lo, hi):
            a, b = L[ordinal(p)][0]
            e = [C[i, k]] + [np.quantile(U[:, i, j], p) for j in range(k + 1, n)] + [np.quantile(U[:, i, n - 1], p)]
            same(mon, "quantiles", a, x, 0, what="periods of the {} line of {}".format(ordinal(p), o))
            same(mon, "quantiles", b, e, 1e-9, big, what="{} of {}".format(ordinal(p), o))
            V[p] = b
            mon.seen("quantile-points", len(b))
        polys = [k_ for k_ in F[o].collections if len(k_.get_paths())]
        mon.check("fill", len(polys) == 1, "{} filled areas", len(polys))
        vs = np.vstack([g.vertices for g in polys[0].get_paths()])
        for p in (lo, hi):
            for a, b in zip(x, V[p]):
                mon.check("fill", (np.abs(vs - [a, b]) <= 1e-9 * max(big, 1.)).all(axis=1).any(), "area of {} misses {}", o, (a, b))
        tx = [v.get_text() for v in F[o].get_xticklabels()]
        labels(mon, "labels", tx, [str(d) for d in D] + ["ult"], "periods on the axis")
    # histograms
    kw = dict(col_wrap=c["col_wrap"])
    if c["bins"]:
        kw["bins"] = c["bins"]
    fig = plots.draw(mon, "hist", r.hist, **kw)
    F = plots.facets(mon, "labels", fig, list(O) + ["total"])
    lat = np.array([[v for v in U[s, :, n - 1]] for s in range(S)])
    d = r.reserve_dist
    for o, ax in F.items():
        x = d[d["origin"] == o]["reserve"].values.astype(float)
        mon.check("hist", len(x) == S, "{} recorded reserves of {}", len(x), o)
        bars = ax.patches
        mon.check("hist", len(bars) == (c["bins"] or 20), "{} bars", len(bars))
        h, e = np.histogram(x, bins=len(bars))
        got = sorted((b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in bars)
        sp = max(abs(x).max(), 1e-300)
        same(mon, "hist", [b[0] for b in got], e[:-1], 1e-9, sp, what="bar edges of {}".format(o))
        mon.check("hist", [b[2] for b in got] == [float(v) for v in h] and sum(b[2] for b in got) == S, "bars of {} count {}, expected {}", o, [b[2] for b in got], h.tolist())
        m = max(float(np.median(x)), 0.)
        same(mon, "median", plots.vlines(ax), [m], 1e-9, what="median of {}".format(o))
        tx = [s for s in plots.texts(ax) if "median" in s]
        mon.check("median", len(tx) == 1 and abs(plots.number(tx[0]) - m) <= .5 + 1e-9 * m, "median labelled {} for {}", tx, m)
        mon.seen("reserves-counted", S)
