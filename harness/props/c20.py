"""C20: bootstrap fit, residuals and scale follow the over-dispersed Poisson model."""
import numpy as np
from lib import gen, oracle, work, boots
from lib.cmp import same, labels

RULE = ("Random complete triangles of 4-11 origins (decreasing amounts, fully developed tails, ties, scales 1e-3..1e6), "
        "parametric or not, with prior requests; fit, residuals, degrees of freedom, "
        "scale, sampling pool and residual statistics recomputed; non-trivial: at least five origins.")
MUST = ["fit", "residuals", "scale", "dof", "adjusted", "pool", "statistics", "factors"]


def cases(rng, tier):
    k = 160 if tier == "quick" else 3000
    out = []
    for i in range(k):
        c = boots.case(rng, lo=4, hi=11)
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def statistics(x):
    m = x.mean()
    c2, c3, c4 = ((x - m) ** 2).mean(), ((x - m) ** 3).mean(), ((x - m) ** 4).mean()
    v, k = np.unique(x, return_counts=True)
    with np.errstate(all="ignore"):
        return {"size": x.size, "sum": x.sum(), "sum_of_squares": (x ** 2).sum(), "minimum": x.min(), "maximum": x.max(),
                "mean": m, "skew": c3 / c2 ** 1.5, "mode": v[np.argmax(k)], "cov": np.sqrt(c2) / m, "kurtosis": c4 / c2 ** 2 - 3,
                "variance": ((x - m) ** 2).sum() / (x.size - 1), "standard_deviation": np.sqrt(((x - m) ** 2).sum() / (x.size - 1)),
                "median": np.median(x)}


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    C = work.cumobs(t)
    A = oracle.incr_expected(np.diff(C, axis=1, prepend=0.))
    r = mon.call("boot_cl", t.boot_cl, sims=2, parametric=c["parametric"], random_state=c["rs"])
    f, fit, inc = oracle.boot_fit(C)
    sc = np.nanmax(np.abs(C))
    same(mon, "factors", r.ldfs.values.astype(float)[:len(f)], f, 1e-12, what="factors")
    for nm, X in (("fitted_tri_cum", r.fitted_tri_cum), ("fitted_tri_incr", r.fitted_tri_incr),
                  ("unscaled_residuals", r.unscaled_residuals), ("adjusted_residuals", r.adjusted_residuals)):
        labels(mon, "fit", X.index, c["origins"], nm)
        labels(mon, "fit", X.columns, c["devs"], nm)
    same(mon, "fit", r.fitted_tri_cum.values, fit, 1e-10, what="fitted cumulative")
    same(mon, "fit", r.fitted_tri_incr.values, inc, 1e-10, sc, what="fitted increments")
    m = np.array(r.fitted_tri_incr.values, float)
    obs = boots.observed(n)
    with np.errstate(all="ignore"):
        us = np.where(obs, (A - m) / np.sqrt(np.abs(m)), np.nan)
        tol = np.where(obs, 1e-12 * sc / np.sqrt(np.abs(m)), 0.)
    U = np.array(r.unscaled_residuals.values, float)
    mon.check("residuals", np.array_equal(np.isnan(U), np.isnan(us)), "residuals of the wrong cells")
    ok = obs & np.isfinite(us)
    mon.check("residuals", (np.abs(U - us)[ok] <= 1e-9 * np.abs(us[ok]) + 10 * tol[ok]).all(), "unscaled residuals {} expected {}", U[ok].tolist(), us[ok].tolist())
    N = n * (n + 1) // 2
    dof = N - (n - 1 + n)
    mon.seen("decided:dof")
    if r.dof == N - (n - 1) + n:
        mon.finding("dof-formula", "degrees of freedom {} for {} cells and {} parameters".format(r.dof, N, 2 * n - 1))
    else:
        mon.check("dof", r.dof == dof, "degrees of freedom {} expected {}", r.dof, dof)
    boots.usable(r, work.cumobs(t), mon)
    same(mon, "scale", [r.scale_param], [np.nansum(U ** 2) / r.dof], 1e-9, what="scale")
    adj = np.sqrt(N / r.dof) * U
    J = np.array(r.adjusted_residuals.values, float)
    same(mon, "adjusted", J, adj, 1e-9, what="adjusted residuals")
    pool = J[:-1, :-1].ravel()
    pool = pool[~np.isnan(pool) & (pool != 0)]
    if c["parametric"]:
        mon.check("pool", r.sampling_dist is None, "parametric result keeps a pool")
    else:
        same(mon, "pool", np.sort(np.ravel(r.sampling_dist)), np.sort(pool), 0, what="sampling pool")
        D = r.residuals_detail
        for col, X in (("unscaled", U), ("adjusted", J)):
            x = X.ravel()
            x = x[~np.isnan(x) & (x != 0)]
            exp = statistics(x)
            labels(mon, "statistics", D.index, list(exp), "rows")
            s = np.abs(x).max()
            for k, v in exp.items():
                o = float(D.loc[k, col])
                if k in ("skew", "kurtosis"):
                    good = abs(o - v) <= 1e-6 * (1 + abs(v))
                elif k == "cov":
                    good = abs(1 / o - 1 / v) <= 1e-7 * (1 + abs(1 / v)) if o and v else o == v
                else:
                    good = abs(o - v) <= 1e-9 * max(abs(v), s ** (2 if k in ("variance", "sum_of_squares") else 1) * (x.size if "sum" in k else 1) if k != "size" else 0)
                mon.check("statistics", good, "{} of {} residuals {} expected {}", k, col, o, v)
