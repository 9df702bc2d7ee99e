"""C28: development plots draw exactly the triangle and the projections."""
import numpy as np
from lib import gen, oracle, work, plots
from lib.cmp import same, labels

RULE = ("Random complete triangles of 3-7 origins (all label styles and field names, scales 1e-6..1e12, exact powers of "
        "ten, fully developed tails, origins projected to the same amounts, origins recovered in full) and ragged ones for the triangle plots, drawn with random styling; the artists of the "
        "figures are read back and compared with the triangle and an independent projection; non-trivial: at least four "
        "origins.")
MUST = ["combined", "faceted", "base", "total", "limits", "labels", "ticks"]
ASSUMPTIONS = ["the combined plot's axis starts at zero by design: limits are decided for positive amounts"]


def cases(rng, tier):
    k = 42 if tier == "quick" else 800
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=3, hi=6, style=gen.pick(rng, ["smooth", "wild", "integer", "shorttail", "ties"]),
                          scale=float(gen.pick(rng, [1., 1., 1., 1e-6, 1e-4, .01, 1e3, 1e6, 1e9])))
        if i % 6 == 0:                    # amounts ending on powers of ten
            n, p = c["n"], float(gen.pick(rng, [1., 10., 1000., 1e6, .01, 1e10]))
            C = np.full((n, n), np.nan)
            for a in range(n):
                m = n - a
                C[a, :m] = p * np.linspace(.25, 1., m) if m > 1 else p
            c["cells"] = gen.tolist(np.diff(C, axis=1, prepend=0.))
        if i % 6 == 2:                    # several origins projected to the very same amounts
            n = c["n"]
            g = np.cumprod([1.] + [float(gen.pick(rng, [1., 1.5, 2., 1.25])) for _ in range(n - 1)])
            m = [float(gen.pick(rng, [64., 64., 128.])) * 1024 for _ in range(n)]
            C = np.array([[m[a] * g[b] if a + b < n else np.nan for b in range(n)] for a in range(n)])
            c["cells"] = gen.tolist(np.diff(C, axis=1, prepend=0.))
        if i % 6 == 4:                    # an origin recovered in full: its latest cumulative amount is zero
            A, n = np.array(c["cells"], float), c["n"]
            a = gen.ri(rng, 0, n - 2)
            A[a, n - 1 - a] = 0.
            if n - 1 - a > 0:
                A[a, n - 1 - a] = -A[a, :n - 1 - a].sum()
            c["cells"] = gen.tolist(A)
        if i % 2 == 0:                    # (an exact fit leaves the bootstrap no residual to draw)
            c["warm"] = [w for w in c["warm"] if w != "boot"]
        c["tail"] = gen.tail(rng)
        c["sel"] = gen.pick(rng, ["all-weighted", "all-simple", "all-geometric"])
        c["style_kw"] = gen.pick(rng, [{}, {}, {"marker": "s"}, {"markersize": 4, "alpha": .5}, {"linewidth": 2.}])
        c["col_wrap"] = gen.pick(rng, [4, 4, 2, 3, 5])
        c["hue"] = bool(rng.rand() < .3)
        c["cmap"] = gen.pick(rng, ["gist_rainbow", "viridis", "hsv"])
        c["ragged"] = None
        if i % 3 == 1:
            rg = gen.ragged(rng)
            rg["pres"] = gen.presentation(rng)
            rg["route"] = "tab_incr"
            c["ragged"] = rg
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 4


def tri_plots(mon, t, c, O, D, positive):
    V = np.array(t.values, float)
    exp = {o: [(float(d), V[i, j]) for j, d in enumerate(D) if not np.isnan(V[i, j])] for i, o in enumerate(O)}
    def points(kind, got, o):
        mon.check(kind, len(got) == 1, "{} lines for origin {}", len(got), o)
        x, y = got[0]
        mon.check(kind, [(a, b) for a, b in zip(x, y)] == exp[o], "origin {} drawn as {}, expected {}", o, list(zip(x, y)), exp[o])
    fig = plots.draw(mon, "combined", t.plot, **({} if not c["style_kw"] else dict(display="combined", cmap=c["cmap"])))
    ax = plots.axes(fig)
    mon.check("combined", len(ax) == 1, "{} axes", len(ax))
    L = plots.lines(ax[0])
    labels(mon, "labels", sorted(L), sorted(str(o) for o in O), "lines")
    for o in O:
        points("combined", L[str(o)], o)
    leg = [x.get_text() for x in ax[0].get_legend().get_texts()]
    labels(mon, "labels", leg, [str(o) for o in O], "legend")
    if positive:
        plots.fits(mon, "limits", ax[0], "combined")
    mon.seen("lines", len(O))
    # faceted
    fig = plots.draw(mon, "faceted", t.plot, display="faceted", **c["style_kw"])
    ax = plots.axes(fig)
    mon.check("faceted", len(ax) == len(O), "{} facets for {} origins", len(ax), len(O))
    titles = [a.get_title() for a in ax]
    labels(mon, "labels", titles, [str(o) for o in O], "facet titles")
    for a, o in zip(ax, O):
        points("faceted", [xy for v in plots.lines(a).values() for xy in v], o)
        if positive:
            plots.fits(mon, "limits", a, "facet {}".format(o))
    mon.seen("facets", len(O))


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    C = work.cumobs(t)
    O, D = c["origins"], c["devs"]
    tri_plots(mon, t, c, O, D, True)
    if c["ragged"]:
        g = c["ragged"]
        tr = gen.build(g, mon, g["pres"], g["route"], "cum")
        V = np.array(tr.values, float)
        keep = [i for i in range(V.shape[0]) if not np.isnan(V[i]).all()]
        if len(keep) == V.shape[0] and min(tr.columns) >= 0:
            tri_plots(mon, tr, c, list(tr.index), list(tr.columns), bool(np.nanmin(V) > 0))
    r = mon.call("base_cl", t.base_cl, sel=c["sel"], tail=c["tail"])
    kw = dict(c["style_kw"], col_wrap=c["col_wrap"])
    if c["hue"]:
        kw["hue_kws"] = dict(marker=["s", "o"], markersize=[4, 5])
    fig = plots.draw(mon, "base", r.plot, **kw)
    F = plots.facets(mon, "labels", fig, list(O) + ["total"])
    f = np.array(r.ldfs.values, float)
    B = oracle.base(C, f[:n - 1], f[n - 1])
    sq, ult = B["sq"], B["ult"]
    mx = np.nanmax(np.abs(sq))
    tot = np.zeros(n)
    for i, o in enumerate(O):
        k = n - 1 - i
        L = plots.lines(F[o])
        mon.check("base", set(L) == {"actual", "forecast"} and all(len(v) == 1 for v in L.values()), "origin {} holds the lines {}", o, {a: len(v) for a, v in L.items()})
        x, y = L["actual"][0]
        same(mon, "base", x, D[:k + 1], 0, what="actual periods of {}".format(o))
        same(mon, "base", y, C[i, :k + 1], 1e-12, what="actual amounts of {}".format(o))
        x, y = L["forecast"][0]
        same(mon, "base", x[:-1], D[k:], 0, what="projected periods of {}".format(o))
        mon.check("base", x[-1] > D[-1], "ultimate of {} drawn at period {}", o, x[-1])
        same(mon, "base", y[:-1], sq[i, k:], 1e-9, what="projected amounts of {}".format(o))
        same(mon, "base", y[-1:], [ult[i]], 1e-9, what="ultimate of {}".format(o))
        plots.fits(mon, "limits", F[o], "facet {}".format(o))
        tot[k:] += sq[i, k:]
    L = plots.lines(F["total"])
    x, y = L["forecast"][0]
    same(mon, "total", x[:-1], D, 0, what="total's periods")
    same(mon, "total", y, np.append(tot, ult.sum()), 1e-9, what="total projections")
    plots.fits(mon, "limits", F["total"], "total")
    for o, ax in F.items():
        labels(mon, "ticks", [v.get_text() for v in ax.get_xticklabels()], [str(d) for d in D] + ["ult"], "periods on the axis")
        yt = ax.get_yticks()
        top = max(y.max() for v in plots.lines(ax).values() for _, y in v)
        mon.check("ticks", len(yt) >= 2 and yt.max() >= top > yt.max() / 10.001 - 1e-300, "ticks {} for amounts up to {}", yt, top)
    mon.seen("facets", n + 1)
