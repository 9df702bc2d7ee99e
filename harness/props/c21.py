"""C21: every bootstrap replicate is a valid resampled and re-projected triangle."""
import numpy as np
from lib import gen, oracle, work, boots
from lib.cmp import same

RULE = ("Random complete triangles of 4-9 origins, 5-60 recorded replicates each recomputed from its own residuals; and a "
        "few triangles with thousands of replicates for the distribution and independence of the residuals drawn; "
        "non-trivial: at least five origins.")
MUST = ["cover", "resample", "pool", "factors", "project", "accumulate", "likely", "independent"]
ASSUMPTIONS = ["the statistical monitors alarm at p < 1e-10; the run is seeded, so their verdict is reproducible"]


def cases(rng, tier):
    k = 90 if tier == "quick" else 1800
    out = []
    for i in range(k):
        c = boots.case(rng, lo=4, hi=8)
        c["sims"] = gen.pick(rng, [1, 2, 5, 20, 60, 250])
        c["mode"] = "exact"
        out.append(c)
    for i in range(12 if tier == "quick" else 120):
        c = boots.case(rng, lo=4, hi=7, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov"]))
        c["sims"] = 2000 if tier == "quick" else 6000
        c["mode"], c["parametric"] = "law", False
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


COLS = ["rectype", "incr", "incr_sqrt", "resid", "samp_incr", "samp_cum", "ldf", "latest", "l_act_dev", "final_incr", "ultimate", "reserve"]


def run(c, mon):
    n, S = c["n"], c["sims"]
    t = work.build(c, mon)
    r = mon.call("boot_cl", t.boot_cl, sims=S, parametric=c["parametric"], random_state=c["rs"])
    pool = boots.usable(r, work.cumobs(t), mon)
    mon.check("cover", r.sims == S, "sims {}", r.sims)
    q = boots.cube(mon, "cover", c, r, COLS)
    obs = boots.observed(n)
    for i in range(n):
        for j in range(n):
            mon.check("cover", (q["rectype"][:, i, j] == ("actual" if obs[i, j] else "forecast")).all(), "cell {} {} labelled {}", i, j, q["rectype"][0, i, j])
    m = np.array(r.fitted_tri_incr.values, float)
    m[:, 0] = np.where(m[:, 0] < 0, 1., m[:, 0])
    R = q["resid"]
    mon.check("resample", np.isnan(R[:, ~obs]).all() and np.isfinite(R[:, obs]).all(), "residuals of the wrong cells")
    mon.seen("replicates", S)
    mon.seen("residuals-drawn", int(obs.sum()) * S)
    same(mon, "resample", q["incr"][:, obs], np.broadcast_to(m[obs], (S, obs.sum())), 1e-12, what="fitted increments")
    s = np.where(obs, m + R * np.sqrt(np.abs(m)), np.nan)
    tot = np.nansum(np.abs(s), axis=2).max(axis=1)[:, None]
    same(mon, "resample", q["samp_incr"][:, obs], s[:, obs], 1e-9, tot, what="resampled increments")
    X = np.cumsum(np.where(obs, s, 0.), axis=2)
    same(mon, "resample", q["samp_cum"][:, obs], X[:, obs], 1e-9, tot, what="resampled cumulative")
    if not c["parametric"]:
        d = np.unique(pool)
        got = R[:, obs].ravel()
        mon.check("pool", np.isin(got, d).all(), "a residual outside of the sampling pool was drawn")
    X = q["samp_cum"]                        # as recorded; verified above
    if c["mode"] == "exact":
        F = np.full((S, n - 1), np.nan)
        cond = np.full((S, n - 1), np.inf)
        for j in range(n - 1):
            k = n - 1 - j
            den = X[:, :k, j].sum(axis=1)
            F[:, j] = X[:, :k, j + 1].sum(axis=1) / den
            cond[:, j] = np.abs(X[:, :k, j + 1]).sum(axis=1) / np.abs(X[:, :k, j + 1].sum(axis=1)) + np.abs(X[:, :k, j]).sum(axis=1) / np.abs(den)
        sound = (cond < 1e5).all(axis=1) & np.isfinite(F).all(axis=1)
        mon.seen("replicates-recomputed", int(sound.sum()))
        for i in range(n):
            same(mon, "factors", q["ldf"][sound, i, :n - 1], F[sound], 1e-9, what="replicate factors")
        for i in range(1, n):
            k = n - 1 - i
            lat = X[:, i, k]
            same(mon, "project", q["latest"][:, i, k:], np.repeat(lat[:, None], n - k, 1), 1e-12, what="latest resampled")
            mon.check("project", (q["l_act_dev"][:, i, :].astype(float) == c["devs"][k]).all(), "last actual period of origin {}", c["origins"][i])
            P = lat[:, None] * np.cumprod(F[:, k:], axis=1)
            same(mon, "project", X[sound, i, k + 1:], P[sound], 1e-8, what="projected cumulative of {}".format(c["origins"][i]))
        inc = np.diff(X, axis=2, prepend=0.)
        big = np.abs(X).max(axis=2)[:, :, None] + np.zeros_like(X)
        fut = np.broadcast_to(~obs, X.shape)
        same(mon, "project", q["samp_incr"][fut], inc[fut], 1e-9, big[fut], what="projected increments")
    fi = q["final_incr"]
    mon.check("accumulate", np.array_equal(fi[:, obs], q["samp_incr"][:, obs]), "observed cells are altered by the process error")
    big = np.abs(fi).sum(axis=2)[:, :, None] + np.zeros_like(fi)
    same(mon, "accumulate", q["ultimate"], np.cumsum(fi, axis=2), 1e-9, big, what="accumulated amounts")
    k = ~np.isnan(q["latest"])
    same(mon, "accumulate", q["reserve"][k], (q["ultimate"] - q["latest"])[k], 1e-9, big[k], what="reserves")
    if c["mode"] == "law":
        law(mon, R, pool, obs, S)


def law(mon, R, pool, obs, S):
    v, w = np.unique(pool, return_counts=True)
    code = np.searchsorted(v, R[:, obs])                 # [sim, cell]
    M = code.shape[1]
    tot = np.bincount(code.ravel(), minlength=v.size)
    exp = w / w.sum()
    boots.p_check(mon, "likely", boots.chisq(tot, exp * code.size), "pool members not equally likely")
    tab = np.array([np.bincount(code[:, k], minlength=v.size) for k in range(M)])
    e = np.outer(np.full(M, S), exp)
    x = ((tab - e) ** 2 / e).sum()
    from scipy import stats as st
    df = M * (v.size - 1)
    boots.p_check(mon, "likely", 2 * min(st.chi2.sf(x, df), st.chi2.cdf(x, df)), "residuals of some cell favour pool members")
    # independence between cells of a replicate, replicates, and lags
    z = code.astype(float)
    for lag in (1, 2, 3, 7):
        if lag < M:
            boots.p_check(mon, "independent", boots.corr(z[:, lag:], z[:, :-lag]), "cells {} apart".format(lag))
        boots.p_check(mon, "independent", boots.corr(z[lag:], z[:-lag]), "replicates {} apart".format(lag))
    worst = min(boots.corr(z[:, a], z[:, b]) for a in range(M) for b in range(a))
    boots.p_check(mon, "independent", min(1., worst * M * M), "two cells of the replicates")
    # as many repeats within a replicate as drawing with replacement yields
    coll = (code[:, :, None] == code[:, None, :]).sum(axis=(1, 2)) - M
    pr = (exp ** 2).sum()
    mean = M * (M - 1) * pr
    zz = (coll.mean() - mean) / (coll.std(ddof=1) / np.sqrt(S)) if coll.std() else (0. if abs(coll.mean() - mean) < 1e-9 else 99.)
    boots.p_check(mon, "independent", 2 * st.norm.sf(abs(zz)), "repeated residuals within a replicate")
    rows = len(set(map(bytes, code.astype(np.int32))))
    mon.seen("distinct-replicates", rows)
    mon.check("independent", rows > .97 * S or v.size ** M < 1e9, "only {} distinct replicates of {}", rows, S)
