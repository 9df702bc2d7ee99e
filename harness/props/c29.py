"""C29: Mack exhibits draw the estimated distributions, paths and residuals."""
import numpy as np
from scipy import stats as st
from lib import gen, oracle, work, plots
from lib.cmp import same, labels
from props.c25 import ordinal

RULE = ("Random complete triangles of 4-7 origins for alpha 0/1/2 and both distributions, with fully developed tails and "
        "exclusions, plotted for random quantiles; every artist is read back and compared with densities, quantiles, "
        "paths and residuals recomputed from the summary and the triangle; non-trivial: at least five origins.")
MUST = ["density", "markers", "labels", "diag-density", "diag-paths", "diag-devp", "diag-origin"]
ASSUMPTIONS = ["a residual that is alone in its origin has no scale and is not decided"]


def cases(rng, tier):
    k = 44 if tier == "quick" else 800
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=6, style=gen.pick(rng, ["smooth", "wild", "integer", "shorttail", "shorttail", "ties"]),
                          scale=float(gen.pick(rng, [1., 1., .01, 10., 1e3, 1e6])))
        if i % 6 in (0, 5):               # recoveries: cumulative amounts may fall below zero
            c = work.est_case(rng, lo=4, hi=6, style="recov")
        c["alpha"], c["dist"] = i % 3, gen.pick(rng, ["norm", "lognorm"])
        c["q"] = gen.pick(rng, [None, .95, .5, [.75, .95], [.99, .5, .75], [.11, .9], [.975], [.01, .025]])
        if i % 6 in (0, 5):
            c["dist"] = "norm"
        c["excl"] = work.exclusions(rng, c["n"])[:1] if rng.rand() < .15 else []
        c["excl"] = [e for e in c["excl"] if e[1] < c["n"] - 3]
        c["col_wrap"] = gen.pick(rng, [4, 4, 2, 5])
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def law(dist, res, se):
    if dist == "norm":
        return st.norm(loc=res, scale=se)
    s2 = np.log1p((se / res) ** 2)
    return st.lognorm(s=np.sqrt(s2), scale=np.exp(np.log(res) - s2 / 2))


def precision(dist, res, se):
    """relative error of a lognormal law whose log(1 + cv**2) is formed in double precision."""
    return 1e-6 + (2e-15 * (res / se) ** 2 if dist == "lognorm" else 0.)


def curve(mon, kind, xy, rv, tol, what):
    x, y = xy
    mon.check(kind, len(x) >= 20 and (np.diff(x) > 0).all(), "{}: {} points", what, len(x))
    same(mon, kind, y, rv.pdf(x), tol, scale=1e-3 * rv.pdf(x).max(), what=what + " density")
    p = rv.cdf(x)
    mon.check(kind, p[0] < .02 and p[-1] > .98, "{}: curve drawn from probability {} to {}", what, p[0], p[-1])


def groups(pts):
    out = {}
    for a, b in pts:
        if not np.isnan(b):
            out.setdefault(float(a), []).append(float(b))
    return {k: sorted(v) for k, v in out.items()}


def scaled(kind, mon, got, exp, what):
    """exp: {label: residuals}; drawn scaled by their root mean square."""
    want = {}
    for k, r in exp.items():
        r = np.asarray(r, float)
        if len(r) < 2:
            got.pop(float(k), None)
            continue
        rms = np.sqrt((r ** 2).mean())
        want[float(k)] = (sorted(r / rms), rms) if rms > 0 else (None, 0)
    for k, (w, rms) in want.items():
        if w is None:
            mon.check(kind, all(abs(v) < 3 for v in got.get(k, [])), "{} {}: {}", what, k, got.get(k))
            got.pop(k, None)
            continue
        same(mon, kind, got.get(k, []), w, 1e-6, 1e-3, what="{} at {}".format(what, k))
        mon.seen("residuals-drawn", len(w))
        got.pop(k)
    mon.check(kind, not got, "{} drawn at {}", what, sorted(got))


def run(c, mon):
    n, dist = c["n"], c["dist"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    C = work.cumobs(t)
    O, D = c["origins"], c["devs"]
    r = mon.call("mack_cl", t.mack_cl, alpha=c["alpha"], dist=dist)
    S = r.summary
    res, se = np.array(S["reserve"].values, float), np.array(S["std_error"].values, float)
    names = list(O) + ["total"]
    if not (se[n] > 1e-7 * abs(res[n])) or (dist == "lognorm" and res[n] <= 0):
        from lib.core import Inconclusive
        raise Inconclusive("no total distribution")
    shown = [i for i in range(n + 1) if se[i] > 0 and (dist == "norm" or res[i] > 0)]
    firm = [i for i in shown if se[i] > 1e-7 * abs(res[i])]
    if firm == shown:
        kw = dict(col_wrap=c["col_wrap"])
        if c["q"] is not None:
            kw["q"] = c["q"]
        fig = plots.draw(mon, "density", r.plot, **kw)
        F = plots.facets(mon, "labels", fig, [names[i] for i in shown])
        qs = [.95] if c["q"] is None else (sorted(set(c["q"])) if isinstance(c["q"], list) else [c["q"]])
        for i in shown:
            ax, rv = F[names[i]], law(dist, res[i], se[i])
            L = [xy for v in plots.lines(ax).values() for xy in v]
            mon.check("density", len(L) == 1, "{} curves for {}", len(L), names[i])
            tol = precision(dist, res[i], se[i])
            curve(mon, "density", L[0], rv, tol, str(names[i]))
            marks = {"mean": res[i]}
            for q in qs:
                marks[ordinal(q)] = float(rv.ppf(q))
            same(mon, "markers", plots.vlines(ax), sorted(marks.values()), 1e-6, tol * se[i], what="marks of {}".format(names[i]))
            tx = {s.split(" = ")[0]: s for s in plots.texts(ax) if " = " in s}
            mon.check("markers", set(tx) == set(marks), "marks labelled {}, expected {}", sorted(tx), sorted(marks))
            for k, v in marks.items():
                mon.check("markers", abs(plots.number(tx[k]) - v) <= .5 + 1e-6 * abs(v) + tol * se[i], "{} labelled {} for {}", names[i], tx[k], v)
            for a in ax.texts:
                if " = " in a.get_text():
                    same(mon, "markers", [a.xy[0]], [marks[a.get_text().split(" = ")[0]]], 1e-6, tol * se[i], what="label position")
            mon.seen("facets")
    # diagnostics
    fig = plots.draw(mon, "diag-density", r.diagnostics)
    ax = plots.axes(fig)
    mon.check("diag-density", len(ax) == 4, "{} facets", len(ax))
    find = {}
    for a in ax:
        s = (a.get_title() + a.get_title(loc="left") + a.get_title(loc="right")).lower()
        find["density" if "reserve" in s else "paths" if "development by" in s else "devp" if "devp" in s else "origin"] = a
    mon.check("labels", set(find) == {"density", "paths", "devp", "origin"}, "facets titled {}", [a.get_title(loc="left") for a in ax])
    L = [xy for v in plots.lines(find["density"]).values() for xy in v]
    mon.check("diag-density", len(L) == 1, "{} curves", len(L))
    curve(mon, "diag-density", L[0], law(dist, res[n], se[n]), precision(dist, res[n], se[n]), "total")
    same(mon, "diag-density", plots.vlines(find["density"]), [res[n]], 1e-9, what="mean marked")
    tx = [s for s in plots.texts(find["density"]) if " = " in s]
    mon.check("diag-density", len(tx) == 1 and abs(plots.number(tx[0]) - res[n]) <= .5 + 1e-9 * abs(res[n]), "mean labelled {} for {}", tx, res[n])
    f = np.array(r.ldfs.values, float)
    B = oracle.base(C, f[:n - 1], f[n - 1] if len(f) == n else 1.)
    L = plots.lines(find["paths"])
    labels(mon, "labels", sorted(L), sorted(str(o) for o in O), "paths")
    for i, o in enumerate(O):
        x, y = L[str(o)][0]
        k = min(len(x), n)
        same(mon, "diag-paths", x[:n], D, 0, what="periods of {}".format(o))
        same(mon, "diag-paths", y[:n], B["sq"][i], 1e-9, what="path of {}".format(o))
        mon.check("diag-paths", len(x) in (n, n + 1), "path of {} points", len(x))
    R = np.full((n, n), np.nan)
    for i in range(n - 1):
        for j in range(n - 1 - i):
            R[i, j] = C[i, j] * f[j] - C[i, j + 1]
            if abs(R[i, j]) < 1e-12 * abs(C[i, j + 1]):
                R[i, j] = 0.
    noisy = np.nanmin(np.where(np.abs(R) > 0, np.abs(R), np.nan) / np.nanmax(C)) if np.nansum(np.abs(R)) else 0.
    def pts(a):
        o = np.vstack([np.asarray(k.get_offsets(), float) for k in a.collections])
        return groups(o)
    if noisy > 1e-9:
        exp = {D[j]: [v for v in R[:, j] if not np.isnan(v)] for j in range(n - 1)}
        scaled("diag-devp", mon, pts(find["devp"]), exp, "residuals by period")
        exp = {O[i]: [v for v in R[i] if not np.isnan(v)] for i in range(n - 1)}
        scaled("diag-origin", mon, pts(find["origin"]), exp, "residuals by origin")
        for k in ("devp", "origin"):
            mon.check("diag-" + k, plots.hlines(find[k]) == [0.], "reference line at {}", plots.hlines(find[k]))
