"""C07: link ratio ranks and high/low assignment are order statistics."""
import numpy as np
import pandas as pd
from lib import gen, oracle, work
from lib.cmp import same, labels

RULE = ("Random complete triangles of 4-13 origins with distinct, tied and nearly tied (1e-6 relative) link ratios; "
        "assignment and rank tables recomputed from the observed link ratios; non-trivial: at least five origins.")
MUST = ["assignment", "ranks"]


def cases(rng, tier):
    k = 200 if tier == "quick" else 4000
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=8, style=gen.pick(rng, ["ties", "nearties", "smooth", "wild", "neg", "recov", "shorttail", "flatcol", "integer"]))
        c["excl"] = work.exclusions(rng, c["n"]) if rng.rand() < .3 else []
        c["order"] = bool(rng.rand() < .5)
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    F = np.array(t.a2a.values, float)

    def assign():
        r = mon.call("a2a_assignment", lambda: t.a2a_assignment)
        labels(mon, "assignment", r.index, c["origins"][:-1], "assignment origins")
        labels(mon, "assignment", r.columns, c["devs"][:-1], "assignment periods")
        E = np.full((n - 1, n - 1), np.nan)
        for j in range(n - 1):
            m = n - 1 - j
            x = np.sort(F[:m, j])
            lo, hi = x[(m - 1) // 2], x[m // 2]
            for i in range(m):
                v = F[i, j]
                if lo == hi:
                    E[i, j] = int(v > lo) - int(v < lo)
                else:
                    # between the middle pair: an even count, no ratio can equal the median unless rounding merges it
                    med = np.median(x)
                    E[i, j] = int(v > med) - int(v < med)
        same(mon, "assignment", np.array(r.values, float), E, 0, what="assignment")
        mon.seen("ties", int((E == 0).sum()))

    def ranks():
        r = mon.call("ranked_a2a", lambda: t.ranked_a2a)
        cols = []
        for k in range(2, n - 1):
            cols += ["s_{}".format(k), "r_{}".format(k)]
        mon.check("ranks", list(r.columns) == cols, "columns {} expected {}", list(r.columns), cols)
        r = r.reindex(c["origins"][:-1])
        for k in range(2, n - 1):
            m = n - k
            s = np.full(n - 1, np.nan)
            q = np.full(n - 1, np.nan)
            s[:m] = oracle.avg_rank(F[:m, k - 2])
            q[:m] = oracle.avg_rank(F[:m, k - 1])
            same(mon, "ranks", r["s_{}".format(k)].values, s, 0, what="s_{}".format(k))
            same(mon, "ranks", r["r_{}".format(k)].values, q, 0, what="r_{}".format(k))

    for f in ([assign, ranks, assign] if c["order"] else [ranks, assign, ranks]):
        f()
    mon.check("ranks", np.array_equal(F, np.array(t.a2a.values, float), equal_nan=True), "link ratios changed")
