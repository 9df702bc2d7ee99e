"""C06: link ratios and their averages follow their definitions and exclusions."""
import numpy as np
from lib import gen, oracle, work
from lib.cmp import same, labels

RULE = ("Random complete triangles (2-13 origins; smooth, wild, integer, tied, nearly tied, constant and decreasing "
        "link ratios, recoveries that turn cumulative amounts zero or negative, runs of zero amounts whose link ratios are undefined and not included), histories of exclusions and re-inclusions through the setter and the table itself, averages "
        "requested before and after; every label of the table is recomputed; non-trivial: at least three origins.")
MUST = ["a2a", "a2aind", "avg", "restore"]
ASSUMPTIONS = ["undefined link ratios (between two cumulative amounts of zero) are not re-included by the caller"]


def cases(rng, tier):
    k = 150 if tier == "quick" else 3000
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=2, hi=7 if i < k // 2 else 9)
        c["steps"] = [[work.exclusions(rng, c["n"], heavy=rng.rand() < .2), gen.pick(rng, ["setter", "at", "mixed"]),
                       gen.pick(rng, ["all", "all", "some"])]
                      for _ in range(gen.pick(rng, [0, 1, 1, 2]))]
        if rng.rand() < .16 and c["n"] >= 4:
            zero_cell(rng, c)
        c["early"] = bool(rng.rand() < .5)
        out.append(c)
    return out


def zero_cell(rng, c):
    """Recoveries offset an origin's payments exactly: a link ratio of zero, undefined ones, an infinite one."""
    A = gen.toarr(c["cells"])
    i = gen.ri(rng, 0, c["n"] - 3)
    j = gen.ri(rng, 1, c["n"] - 2 - i)
    last = gen.ri(rng, j, c["n"] - 1 - i) if rng.rand() < .6 else j
    C = np.array([[round(v) if v == v else v for v in r] for r in np.cumsum(A, axis=1) * (64 / np.nanmax(A[:, 0]))]) * 8 + 1.
    C[:, 1:] += np.arange(1, c["n"])
    C[i, j:last + 1] = 0.
    c["style"], c["cells"], c["zero"] = "zerocell", gen.tolist(np.diff(C, axis=1, prepend=0.)), [i, j]


def nontrivial(c):
    return c["n"] >= 3


def undefined(C):
    """Positions of link ratios between two amounts of zero."""
    n = len(C)
    return [[i, j] for i in range(n) for j in range(n - 1 - i) if C[i, j] == 0 and C[i, j + 1] == 0]


def table(c, mon, t, excl, kind="avg"):
    n = c["n"]
    F = np.full((n - 1, n - 1), np.nan)
    F[:, :] = np.array(t.a2a.values, float)
    C = work.cumobs(t)
    exp = oracle.avg_table(F, C, work.wmat(n, excl + undefined(C)))
    tab = mon.call("a2a_avgs", t.a2a_avgs)
    mon.check(kind, sorted(tab.index) == sorted(exp), "labels {} expected {}", sorted(tab.index), sorted(exp))
    labels(mon, kind, tab.columns, c["devs"][:-1], "average periods")
    for lab, row in exp.items():
        same(mon, kind, np.array(tab.loc[lab].values, float), row, 1e-9, what=lab + " with exclusions {}".format(excl))


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    C = work.cumobs(t)
    same(mon, "cells", C, oracle.cum(gen.toarr(c["cells"])), 1e-9, np.nanmax(C), what="cells")
    a = t.a2a
    labels(mon, "a2a", a.index, c["origins"][:-1], "link ratio origins")
    labels(mon, "a2a", a.columns, c["devs"][:-1], "link ratio periods")
    same(mon, "a2a", a.values, oracle.a2a(C), 1e-12, what="link ratios")
    if c["early"]:
        table(c, mon, t, [])
    ind, und = t.a2aind, undefined(C)
    mon.seen("undefined-ratios", len(und))
    same(mon, "a2aind", np.array(ind.values, float), work.wmat(n, und), 0, what="a2aind")
    labels(mon, "a2aind", ind.index, c["origins"][:-1], "a2aind origins")
    labels(mon, "a2aind", ind.columns, c["devs"][:-1], "a2aind periods")
    cur = []
    for pos, how, back in c["steps"]:
        pos = [p for p in pos if p not in cur and list(p) not in und]
        mon.seen("exclusions", len(pos))
        work.exclude(t, c, pos, 0, how)
        cur = cur + pos
        same(mon, "a2aind", np.array(t.a2aind.values, float), work.wmat(n, cur + und), 0, what="a2aind after exclusion")
        table(c, mon, t, cur)
        same(mon, "a2a", t.a2a.values, oracle.a2a(C), 1e-12, what="link ratios after exclusion")
        some = list(cur) if back == "all" else cur[::2]
        work.exclude(t, c, some, 1, how)
        cur = [p for p in cur if p not in some]
        same(mon, "a2aind", np.array(t.a2aind.values, float), work.wmat(n, cur + und), 0, what="a2aind after re-inclusion")
        table(c, mon, t, cur, "restore")
    work.exclude(t, c, cur, 1, "setter")
    table(c, mon, t, [], "restore")
