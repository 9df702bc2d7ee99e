"""C39: exhibits of histories of any run-off shape draw every origin from its own maturity."""
import numpy as np
from lib import gen, plots
from lib.cmp import same, labels
from props import c38
from props.c25 import ordinal

RULE = ("Random histories with non-increasing maturities (the shapes of C38), drawn as triangle, base, bootstrap and histogram "
        "exhibits; every line, area, bar and label is read back and compared with the triangle, an independent projection "
        "and the recorded simulations; non-trivial: at least three origins and three periods.")
MUST = ["combined", "base", "total", "boot", "fill", "hist"]
ASSUMPTIONS = c38.ASSUMPTIONS


def cases(rng, tier):
    k = 28 if tier == "quick" else 500
    out = []
    for c in c38.cases(rng, tier):
        if len(out) < k and c["n"] <= 8 and c["n"] * c["m"] <= 40:
            c["sims"], c["q"] = gen.ri(rng, 5, 40), gen.pick(rng, [None, .5, .9, .8])
            c["col_wrap"], c["bins"] = gen.pick(rng, [4, 2, 3]), gen.pick(rng, [None, 8])
            c["excl"] = []
            out.append(c)
    return out


nontrivial = c38.nontrivial


def origin(c, mon, kind, ax, i, C, sq, tail, extra):
    """Actual and projected lines of one origin; returns the projected line."""
    m, K, D, o = c["m"], c["K"], c["devs"], c["origins"][i]
    k = K[i] - 1
    L = plots.lines(ax)
    mon.check(kind, set(L) == {"actual", "forecast"} | extra and all(len(v) == 1 for v in L.values()), "origin {} holds the lines {}", o, sorted(L))
    x, y = L["actual"][0]
    same(mon, kind, x, D[:k + 1], 0, what="actual periods of {}".format(o))
    same(mon, kind, y, C[i, :k + 1], 1e-12, what="actual amounts of {}".format(o))
    x, y = L["forecast"][0]
    same(mon, kind, x[:-1], D[k:], 0, what="projected periods of {}".format(o))
    mon.check(kind, x[-1] > D[-1], "ultimate of {} drawn at period {}", o, x[-1])
    same(mon, kind, y, np.append(sq[i, k:], sq[i, -1] * tail), 1e-9, what="projected amounts of {}".format(o))
    return L, x


def run(c, mon):
    t = c38.build(c, mon)
    n, m, K, O, D = c["n"], c["m"], c["K"], c["origins"], c["devs"]
    C = np.array(t.values, float)
    mon.seen("shape:" + c["style"])
    for disp in ("combined", "faceted"):
        fig = plots.draw(mon, "combined", t.plot, display=disp)
        ax = plots.axes(fig)
        mon.check("combined", len(ax) == (1 if disp == "combined" else n), "{} axes", len(ax))
        for i, o in enumerate(O):
            if disp == "combined":
                got = plots.lines(ax[0])[str(o)]
            else:
                got = [xy for v in plots.lines(ax[i]).values() for xy in v]
                mon.check("combined", ax[i].get_title() == str(o), "facet titled {} for {}", ax[i].get_title(), o)
            mon.check("combined", len(got) == 1, "{} lines for origin {}", len(got), o)
            mon.check("combined", list(got[0][0]) == [float(d) for d in D[:K[i]]] and list(got[0][1]) == list(C[i, :K[i]]), "origin {} drawn as {}", o, got[0])
    # base
    W = c38.averages(c, C)["all-weighted"]
    for f, tail, kw in ((W, c["tail"], {}), (np.array(c["user"]), 1., {"sel": c["user"]})):
        if not (np.isfinite(f).all() and (f > 0).all()):
            continue
        _, _, _, ult, sq = c38.project(c, C, f, tail)
        r = mon.call("base_cl", t.base_cl, tail=tail, **kw)
        F = plots.facets(mon, "base", plots.draw(mon, "base", r.plot, col_wrap=c["col_wrap"]), list(O) + ["total"])
        tot, k0 = np.zeros(m), min(K) - 1
        for i, o in enumerate(O):
            origin(c, mon, "base", F[o], i, C, sq, tail, set())
            plots.fits(mon, "base", F[o], "facet {}".format(o))
            tot[K[i] - 1:] += sq[i, K[i] - 1:]
        x, y = plots.lines(F["total"])["forecast"][0]
        same(mon, "total", x[:-1], D[k0:], 0, what="total's periods")
        same(mon, "total", y, np.append(tot[k0:], ult.sum()), 1e-9, what="total projections")
        for o, ax in F.items():
            labels(mon, "base", [v.get_text() for v in ax.get_xticklabels()], [str(d) for d in D] + ["ult"], "periods on the axis")
        mon.seen("facets", n + 1)
    # bootstrap
    if not c38.usable(c, C):
        mon.seen("no-bootstrap")
        return
    r = mon.call("boot_cl", t.boot_cl, sims=c["sims"], random_state=c["rs"], parametric=c["parametric"])
    _, _, _, _, sq = c38.project(c, C, W, 1.)
    d = r.sims_data
    U = {k: np.sort(g.values.astype(float)) for k, g in d.groupby(["origin", "dev"])["ultimate"]}
    q = .9 if c["q"] is None else c["q"]
    lo, hi = (1 - q) / 2, (1 + q) / 2
    F = plots.facets(mon, "boot", plots.draw(mon, "boot", r.plot, col_wrap=c["col_wrap"], **({} if c["q"] is None else {"q": q})), list(O))
    for i, o in enumerate(O):
        L, x = origin(c, mon, "boot", F[o], i, C, sq, 1., {ordinal(lo), ordinal(hi)})
        big = max(np.abs(U[(o, e)]).max() for e in D)
        k = K[i] - 1
        V = {}
        for p in (lo, hi):
            a, b = L[ordinal(p)][0]
            e = [C[i, k]] + [np.quantile(U[(o, D[j])], p) for j in range(k + 1, m)] + [np.quantile(U[(o, D[-1])], p)]
            same(mon, "boot", a, x, 0, what="periods of the {} line of {}".format(ordinal(p), o))
            if K[i] < m:
                same(mon, "boot", b, e, 1e-9, big, what="{} of {}".format(ordinal(p), o))
            V[p] = b
        polys = [g for g in F[o].collections if len(g.get_paths())]
        mon.check("fill", len(polys) == 1, "{} filled areas", len(polys))
        vs = np.vstack([g.vertices for g in polys[0].get_paths()])
        for p in (lo, hi):
            for a, b in zip(x, V[p]):
                mon.check("fill", (np.abs(vs - [a, b]) <= 1e-9 * max(big, 1.)).all(axis=1).any(), "area of {} misses {}", o, (a, b))
    F = plots.facets(mon, "hist", plots.draw(mon, "hist", r.hist, col_wrap=c["col_wrap"], **({"bins": c["bins"]} if c["bins"] else {})), list(O) + ["total"])
    R = r.reserve_dist
    for o, ax in F.items():
        x = R[R["origin"] == o]["reserve"].values.astype(float)
        mon.check("hist", len(x) == c["sims"], "{} recorded reserves of {}", len(x), o)
        h, e = np.histogram(x, bins=c["bins"] or 20)
        got = sorted((b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in ax.patches)
        mon.check("hist", len(got) == len(h), "{} bars", len(got))
        same(mon, "hist", [b[0] for b in got], e[:-1], 1e-9, max(abs(x).max(), 1e-300), what="bar edges of {}".format(o))
        mon.check("hist", [b[2] for b in got] == [float(v) for v in h], "bars of {} count {}, expected {}", o, [b[2] for b in got], h.tolist())
        same(mon, "hist", plots.vlines(ax), [max(float(np.median(x)), 0.)], 1e-9, what="median of {}".format(o))
