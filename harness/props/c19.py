"""C19: calendar year test is Mack's diagonal count test."""
import numpy as np
from lib import gen, oracle, work
from lib.cmp import same

RULE = ("Random complete triangles of 4-13 and 33-40 origins (odd and even counts per period, tied, nearly tied and constant "
        "link ratios) and significance levels; the test is recomputed from the observed link ratios diagonal by "
        "diagonal, repeatedly and after other requests; non-trivial: at least five origins.")
MUST = ["statistic", "interval", "again"]


def cases(rng, tier):
    k = 160 if tier == "quick" else 3000
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=9, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "ties", "nearties", "shorttail", "smooth"]))
        if rng.rand() < .3:
            # a calendar year shock makes the counts lopsided
            A = gen.toarr(c["cells"])
            n = c["n"]
            k2 = gen.ri(rng, 1, n - 1)
            for a in range(n):
                b = k2 - a
                if 0 < b < n - a:
                    A[a, b] = abs(A[a, b]) * 1.7 + 1
            c["cells"] = gen.tolist(A)
        if i % (80 if tier == "quick" else 300) == 7:     # more than thirty ratios on a diagonal
            c = work.est_case(rng, n=gen.ri(rng, 33, 40), style=gen.pick(rng, ["smooth", "wild"]), warm=False)
        c["p"] = [float(x) for x in rng.choice([.01, .05, .05, .1, .2, .5], 2)]
        c["alpha"] = gen.ri(rng, 0, 2)
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def run(c, mon):
    t = work.build(c, mon)
    m = mon.call("mack_cl", t.mack_cl, alpha=c["alpha"])
    F = np.array(t.a2a.values, float)
    for k, p in enumerate(c["p"]):
        (lo, hi), Z = mon.call("cy_effects_test", m.cy_effects_test, p) if k else mon.call("cy_effects_test", m.cy_effects_test, p=p)
        (elo, ehi), eZ, E, V = oracle.cy_test(F, p)
        mon.check("statistic", float(Z) == float(eZ), "Z observed {} expected {}", Z, eZ)
        same(mon, "interval", [lo, hi], [elo, ehi], 1e-9, 1., what="interval at p={}".format(p))
        gen.warm(t, c["warm"][:1] + ["a2a_assignment"], mon)
    (lo, hi), Z = mon.call("cy_effects_test", m.cy_effects_test)
    (elo, ehi), eZ, E, V = oracle.cy_test(F, .05)
    same(mon, "again", [lo, hi, Z], [elo, ehi, eZ], 1e-9, 1., what="default test")
    m2 = mon.call("mack_cl", t.mack_cl)
    (lo, hi), Z = mon.call("cy_effects_test", m2.cy_effects_test)
    same(mon, "again", [lo, hi, Z], [elo, ehi, eZ], 1e-9, 1., what="second estimator's test")
