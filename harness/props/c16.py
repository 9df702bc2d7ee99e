"""C16: Mack prediction errors follow Mack's recursion and add up."""
import numpy as np
from lib import gen, oracle, work
from lib.cmp import same, labels
from props.c15 import excl_for

RULE = ("Random complete triangles (4-13 origins; fully developed tails, periods without variance, decreasing amounts, "
        "wild ones; scales 1e-3..1e6) for alpha 0/1/2, both distributions, exclusions and prior requests; errors are "
        "recomputed by the recursions from the result's own factors and variances; non-trivial: at least five origins.")
MUST = ["process", "parameter", "std_error", "total", "cv"]


def cases(rng, tier):
    k = 150 if tier == "quick" else 3000
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=8, style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "shorttail", "shorttail", "ties", "flatcol", "nearties"]))
        c["excl"] = excl_for(rng, c["n"]) if rng.rand() < .4 else []
        c["alpha"] = i % 3
        c["dist"] = gen.pick(rng, ["norm", "lognorm"])
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def run(c, mon):
    n, alpha = c["n"], c["alpha"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    C = work.cumobs(t)
    r = mon.call("mack_cl", t.mack_cl, alpha=alpha, dist=c["dist"])
    f = np.array(r.ldfs.values, float)[:-1]
    s2, v = np.array(r.devpvar.values, float), np.array(r.ldfvar.values, float)
    # a chain of definitions: the variances themselves are C15's matter
    proc, par, mse, tot = oracle.mack_errors(C, alpha, f, s2, v)
    mon.seen("developed-origins", int((proc == 0).sum()))
    mon.check("process", np.isfinite(s2).all() and np.isfinite(v).all(), "variances {} {}", s2, v)
    labels(mon, "process", r.process_error.index, c["origins"], "process error origins")
    labels(mon, "parameter", r.parameter_error.index, c["origins"], "parameter error origins")
    same(mon, "process", r.process_error.values, proc, 1e-9, what="alpha {} process error".format(alpha))
    same(mon, "parameter", r.parameter_error.values, par, 1e-9, what="alpha {} parameter error".format(alpha))
    S = r.summary
    se = np.array(S["std_error"].values, float)
    same(mon, "std_error", se[:-1], np.sqrt(mse), 1e-9, what="std error")
    same(mon, "total", se[-1:], [np.sqrt(tot)], 1e-9, what="total std error")
    same(mon, "std_error", r.mse.values.astype(float), np.where(np.append(mse, tot) < 0, np.nan, np.append(mse, tot)), 1e-8, what="mse attribute")
    same(mon, "std_error", r.std_error.values.astype(float), se, 0, what="std_error attribute")
    # without variance anywhere, or a period's, only that contribution vanishes
    for i in range(n):
        expected_zero = not (s2[n - 1 - i:] != 0).any()
        mon.check("std_error", (se[i] == 0) == expected_zero, "origin {}: std error {} while variances {}", c["origins"][i], se[i], s2[n - 1 - i:])
    cv = np.array(S["cv"].values, float)
    res = np.array(S["reserve"].values, float)
    mon.check("cv", np.isnan(cv[0]), "oldest origin shows a cv of {}", cv[0])
    for i in range(1, n + 1):
        if res[i] != 0:
            same(mon, "cv", [cv[i]], [se[i] / res[i]], 1e-9, what="cv of {}".format(list(S.index)[i]))
    a = r.cv
    mon.check("cv", list(a.index) == list(S.index) and np.array_equal(a.values.astype(float), cv, equal_nan=True), "cv attribute differs")
