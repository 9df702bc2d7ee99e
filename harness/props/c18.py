"""C18: development period correlation test is Mack's weighted Spearman test."""
import numpy as np
from scipy.stats import norm
from lib import gen, oracle, work
from lib.cmp import same

RULE = ("Random complete triangles of 4-13 origins with distinct, tied and nearly tied link ratios; statistic and "
        "interval recomputed, for several probabilities, generator states, orders of calls and a rank-preserving "
        "rewriting of the link ratios; non-trivial: at least five origins.")
MUST = ["statistic", "interval", "state", "ranks"]


def cases(rng, tier):
    k = 150 if tier == "quick" else 3000
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=9, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "ties", "nearties", "shorttail"]))
        c["p"] = [float(x) for x in rng.choice([.05, .1, .25, .5, .5, .75, .8, .9, .95, .99, .01, .999], 3)]
        c["alpha"] = gen.ri(rng, 0, 2)
        c["seeds"] = [gen.ri(rng, 0, 99999) for _ in range(3)]
        c["excl"] = [e for e in (work.exclusions(rng, c["n"]) if rng.rand() < .2 else []) if c["n"] - 1 - e[1] > 3][:2]
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    m = mon.call("mack_cl", t.mack_cl, alpha=c["alpha"])
    F = np.array(t.a2a.values, float)
    T0 = oracle.spearman_T(F)
    s = np.sqrt((n - 2) * (n - 3) / 2.)
    first = {}
    for rep, (p, seed) in enumerate(zip(c["p"] + c["p"][:1], c["seeds"] + [c["seeds"][-1] + 1])):
        np.random.seed(seed)
        (lo, hi), T = mon.call("devp_corr_test", m.devp_corr_test, p) if rep % 2 == 0 else mon.call("devp_corr_test", m.devp_corr_test, p=p)
        z = norm.ppf((1 + p) / 2.)
        same(mon, "statistic", [T], [T0], 1e-9, 1., what="T")
        same(mon, "interval", [lo, hi], [-z / s, z / s], 1e-6, what="interval at p={}".format(p))
        if p in first:
            same(mon, "state", [lo, hi, T], first[p], 1e-6, what="same request, other generator state")
        first[p] = [lo, hi, T]
        if rep == 1:
            gen.warm(t, ["ranked_a2a", "a2a", "mack_tests"], mon)
    # the default is the central half
    (lo, hi), T = mon.call("devp_corr_test", m.devp_corr_test)
    same(mon, "interval", [lo, hi], [-norm.ppf(.75) / s, norm.ppf(.75) / s], 1e-6, what="default interval")
    # link ratios changed monotonically (cubed): same ranks, same statistic
    srt = np.sort(F, axis=0)
    apart = not (np.abs(np.diff(srt, axis=0)) <= 1e-9 * np.abs(srt[1:])).any()    # ties, but for rounding, may break either way
    if c["style"] in ("smooth", "wild", "neg") and apart:
        C = oracle.cum(gen.toarr(c["cells"]))
        G = C.copy()
        R = oracle.a2a(C)
        for i in range(n):
            for j in range(1, n - i):
                G[i, j] = G[i, j - 1] * R[i, j - 1] ** 1.5
        c2 = dict(c, cells=gen.tolist(np.diff(G, axis=1, prepend=0.)))
        t2 = gen.build(c2, mon, gen.presentation(None, plain=True), "tab_incr", "cum")
        T2 = mon.call("devp_corr_test", mon.call("mack_cl", t2.mack_cl).devp_corr_test, c["p"][0])[1]
        same(mon, "ranks", [T2], [T0], 1e-9, 1., what="T after a rank preserving change")
