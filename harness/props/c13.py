"""C13: the squared triangle projects every origin to ultimate."""
import numpy as np
from lib import gen, oracle, work
from lib.cmp import same, labels

RULE = ("Random complete triangles; base results with named and user-selected factors (zero and negative ones included) and tails, Mack results for alpha "
        "0/1/2 with exclusions, bootstrap results; every cell of the squared triangle is recomputed from the observed "
        "cells and the result's own factors; non-trivial: at least three origins.")
MUST = ["base", "mack", "boot"]


def cases(rng, tier):
    k = 120 if tier == "quick" else 2500
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=2 if i % 4 == 0 else 5, hi=8, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "shorttail", "ties"]))
        c["tails"] = [float(x) for x in (1., gen.tail(rng))]
        c["sel"] = gen.pick(rng, ["all-simple", "all-medial", "all-geometric", "simple-2", "weighted-2"] if c["n"] > 3 else ["all-simple"])
        c["user"] = [gen.factor(rng) for _ in range(c["n"] - 1)]
        if i % 4 == 1:                    # nothing, or less than nothing, is left after a period
            for _ in range(gen.ri(rng, 1, 2)):
                c["user"][gen.ri(rng, 0, c["n"] - 2)] = float(gen.pick(rng, [0., 0., -.5, 1e-9, 1.]))
        c["alpha"] = gen.ri(rng, 0, 2)
        c["excl"] = [e for e in (work.exclusions(rng, c["n"]) if rng.rand() < .4 else []) if e[0] != c["n"] - 2 - e[1]]
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 3


def verify(c, mon, kind, r, C, tail, ult):
    n = c["n"]
    f = np.array(r.ldfs.values, float)
    if np.isnan(f).any():
        mon.seen("undefined-factor")
        return
    same(mon, kind, f[-1:], [tail], 0, what="tail")
    E = oracle.base(C, f[:-1], tail)
    sq = r.trisqrd
    labels(mon, kind, sq.index, c["origins"], "origins")
    labels(mon, kind, list(sq.columns)[:n], c["devs"], "periods")
    V = np.array(sq.iloc[:, :n].values, float)
    obs = ~np.isnan(C)
    mon.check(kind, np.array_equal(V[obs], C[obs]), "observed cells altered")
    same(mon, kind, V, E["sq"], 1e-9, what="squared triangle")
    if kind == "base":
        mon.check(kind, list(sq.columns)[n:] == ["ultimate"], "columns {}", list(sq.columns))
    if "ultimate" in list(sq.columns):
        u = np.array(sq["ultimate"].values, float)
        same(mon, kind, u, E["sq"][:, -1] * tail, 1e-9, what="ultimate column")
        if ult is not None:
            same(mon, kind, u, ult, 1e-9, what="ultimate column vs summary")
    elif ult is not None:
        same(mon, kind, V[:, -1] * tail, ult, 1e-9, what="last period vs summary")


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    C = work.cumobs(t)
    for sel, tail in ((c["sel"], c["tails"][1]), ("all-weighted", 1.), (c["user"], c["tails"][1]), (c["user"], 1.)):
        r = mon.call("base_cl", t.base_cl, sel=sel, tail=tail)
        verify(c, mon, "base", r, C, tail, r.summary["ultimate"].values[:-1].astype(float))
    if n >= 5:
        r = mon.call("mack_cl", t.mack_cl, alpha=c["alpha"])
        verify(c, mon, "mack", r, C, 1., r.summary["ultimate"].values[:-1].astype(float))
    if n >= 4:
        r = mon.call("boot_cl", t.boot_cl, sims=2, random_state=1)
        verify(c, mon, "boot", r, C, 1., None)
