"""C22: bootstrap process error has the stated gamma distribution."""
import numpy as np
from scipy import stats as st
from lib import gen, oracle, work, boots
from lib.cmp import same

RULE = ("Random complete triangles of 4-8 origins with 600-4000 replicates; future increments are turned into "
        "probabilities by the stated gamma distribution and tested for uniformity and independence, signs and observed "
        "cells exactly; parametric residuals against the normal law; non-trivial: at least five origins.")
MUST = ["observed", "sign", "params", "gamma", "independent", "normal"]
ASSUMPTIONS = ["the statistical monitors alarm at p < 1e-10; the run is seeded, so their verdict is reproducible",
               "cells whose gamma shape is below 0.02 underflow to zero too often for the uniformity test and are only checked for sign"]


def cases(rng, tier):
    k = 40 if tier == "quick" else 600
    out = []
    for i in range(k):
        c = boots.case(rng, lo=4, hi=7, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "neg", "shorttail", "calm"]))
        c["sims"] = (1500 if i % 3 else 3000) * (1 if tier == "quick" else 2)
        c["parametric"] = i % 2 == 0
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def run(c, mon):
    n, S = c["n"], c["sims"]
    t = work.build(c, mon)
    r = mon.call("boot_cl", t.boot_cl, sims=S, parametric=c["parametric"], random_state=c["rs"], procdist="gamma")
    pool = boots.usable(r, work.cumobs(t), mon)
    q = boots.cube(mon, "observed", c, r, ["samp_incr", "samp_cum", "final_incr", "param1", "param2", "sign", "var", "resid"])
    obs = boots.observed(n)
    fi = q["final_incr"]
    # the projected increment, from the projected amounts (C21 settles those)
    inc = np.diff(q["samp_cum"], axis=2, prepend=0.)
    big = np.abs(q["samp_cum"]).max(axis=2)[:, :, None] + np.zeros_like(inc)
    m = q["samp_incr"]
    same(mon, "params", m, inc, 1e-9, big, what="projected increments")
    mon.check("observed", np.array_equal(fi[:, obs], m[:, obs]), "observed cells carry process error")
    sc = r.scale_param
    fut = ~obs
    mf, xf = m[:, fut], fi[:, fut]
    mon.check("sign", np.isfinite(xf).all(), "simulated increments not finite")
    mon.check("sign", ((xf == 0) | (np.sign(xf) == np.sign(mf))).all(), "a simulated increment has another sign than the projected one")
    mon.check("sign", (xf[mf == 0] == 0).all(), "an increment projected as zero is simulated as {}", xf[mf == 0][:3])
    same(mon, "params", q["param1"][:, fut] * q["param2"][:, fut], np.abs(mf), 1e-9, what="recorded gamma mean")
    same(mon, "params", q["param1"][:, fut] * q["param2"][:, fut] ** 2, np.abs(mf) * sc, 1e-9, what="recorded gamma variance")
    same(mon, "params", q["var"][:, fut], np.abs(mf) * sc, 1e-9, what="recorded variance")
    with np.errstate(all="ignore"):
        shape = np.abs(mf) / sc
        U = np.where(shape >= .02, st.gamma.cdf(np.abs(xf), np.where(shape > 0, shape, 1.), scale=sc), np.nan)
    # below the smallest numbers the draw is recorded as 0: rank it by an auxiliary uniform draw
    aux = np.random.RandomState(c["rs"] % 1000003).rand(*U.shape)
    tiny = (np.abs(xf) < 1e-290) & ~np.isnan(U)
    U[tiny] = aux[tiny] * st.gamma.cdf(1e-290 / sc, shape[tiny]) if tiny.any() else U[tiny]
    ok = ~np.isnan(U)
    mon.seen("gamma-draws", int(ok.sum()))
    M = U.shape[1]
    if ok.sum() > 500:
        boots.p_check(mon, "gamma", boots.ks(U[ok]), "process error not gamma with the stated mean and variance")
        mon.check("gamma", np.unique(U[ok]).size > .999 * ok.sum(), "repeated draws")
        ps = [boots.ks(U[ok[:, k], k]) for k in range(M) if ok[:, k].sum() > 200]
        if ps:
            boots.p_check(mon, "gamma", min(1., min(ps) * len(ps)), "process error of some cell")
        for neg in (True, False):
            k = ok & ((mf < 0) == neg)
            if k.sum() > 200:
                mon.seen("negative-draws" if neg else "positive-draws", int(k.sum()))
                boots.p_check(mon, "gamma", boots.ks(U[k]), "process error of {} increments".format("negative" if neg else "positive"))
        for lag in (1, 2, 3):
            if M > lag:
                boots.p_check(mon, "independent", boots.corr(U[:, lag:], U[:, :-lag]), "cells {} apart".format(lag))
            boots.p_check(mon, "independent", boots.corr(U[lag:], U[:-lag]), "replicates {} apart".format(lag))
        w = [boots.corr(U[:, a], U[:, b]) for a in range(M) for b in range(a)]
        if w:
            boots.p_check(mon, "independent", min(1., min(w) * len(w)), "two cells of the replicates")
        # not a function of the amount simulated
        boots.p_check(mon, "independent", boots.corr(U, np.where(ok, np.abs(mf), np.nan) - np.nanmedian(np.abs(mf), axis=0)), "draw and projected amount")
    if c["parametric"]:
        sd = pool.std(ddof=1)
        z = q["resid"][:, obs] / sd
        u = st.norm.cdf(z)
        K = u.shape[1]
        mon.seen("normal-draws", int(u.size))
        boots.p_check(mon, "normal", boots.ks(u.ravel()), "parametric residuals not normal with the pool's standard deviation")
        boots.p_check(mon, "normal", min(1., K * min(boots.ks(u[:, k]) for k in range(K))), "parametric residuals of some cell")
        zs = np.sqrt(u.size) * z.mean()
        boots.p_check(mon, "normal", 2 * st.norm.sf(abs(zs)), "mean of the parametric residuals")
        x2 = (z ** 2).sum()
        boots.p_check(mon, "normal", 2 * min(st.chi2.sf(x2, z.size), st.chi2.cdf(x2, z.size)), "variance of the parametric residuals")
        for lag in (1, 2):
            boots.p_check(mon, "independent", boots.corr(z[:, lag:], z[:, :-lag]), "residuals {} apart".format(lag))
            boots.p_check(mon, "independent", boots.corr(z[lag:], z[:-lag]), "residuals of replicates {} apart".format(lag))
        w = [boots.corr(z[:, a], z[:, b]) for a in range(K) for b in range(a)]
        boots.p_check(mon, "independent", min(1., min(w) * len(w)), "parametric residuals of two cells")
    for bad in ("normal", "", "gam"):
        mon.raises("params", ValueError, t.boot_cl, sims=2, procdist=bad)
