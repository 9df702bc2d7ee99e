"""C12: base chain ladder summary obeys the chain ladder identities."""
import numpy as np
from lib import gen, oracle, work
from lib.cmp import same, labels
from props.c06 import undefined, zero_cell

RULE = ("Random complete triangles (2-13 origins, all styles, labels, routes) (some with undefined or infinite averages) with every kind of named selection, tails "
        "below / at / above 1, link ratio exclusions and prior requests; the whole summary is recomputed from the cells "
        "and the selected factors; non-trivial: at least three origins.")
MUST = ["summary", "total", "factors", "attributes"]


def sel_names(n):
    return ["all-simple", "all-geometric", "all-medial", "all-weighted"] + [
        "{}-{}".format(k, p) for k in ("simple", "geometric", "medial", "weighted") for p in range(1, n - 1)]


def cases(rng, tier):
    k = 220 if tier == "quick" else 4500
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=2, hi=8)
        c["sel"] = gen.pick(rng, sel_names(c["n"])) if rng.rand() < .7 else "all-weighted"
        c["tail"] = gen.tail(rng)
        c["default"] = bool(rng.rand() < .1)
        c["excl"] = work.exclusions(rng, c["n"]) if rng.rand() < .4 else []
        if rng.rand() < .85:
            # leave each period something to average (a single ratio left serves every selection)
            c["excl"] = [e for e in c["excl"] if e[0] != c["n"] - 2 - e[1]]
        if rng.rand() < .08 and c["n"] >= 4:
            zero_cell(rng, c)
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 3


def verify_summary(c, mon, t, r, f, tail, C, kind="summary"):
    """Everything the summary of a (deterministic) chain ladder shows, from the factors in force."""
    n = c["n"]
    O, D = c["origins"], c["devs"]
    with np.errstate(all="ignore"):
        E = oracle.base(C, f, tail)
    S = r.summary
    labels(mon, kind, S.index, O + ["total"], "summary index")
    labels(mon, kind, S["maturity"], [str(D[m]) for m in E["mat"]] + [""], "maturity")
    o = S.iloc[:-1]
    big = np.abs(E["ult"])
    same(mon, kind, o["latest"], E["latest"], 1e-12, what="latest")
    same(mon, kind, o["cldf"], E["cldf"], 1e-9, what="cumulative factor")
    same(mon, kind, o["emergence"], np.divide(1, E["cldf"]), 1e-9, what="emergence")
    same(mon, kind, o["ultimate"], E["ult"], 1e-9, what="ultimate")
    same(mon, kind, o["reserve"], E["res"], 1e-9, big, what="reserve")
    tot = S.loc["total"]
    mon.check("total", np.isnan(float(tot["cldf"])) and np.isnan(float(tot["emergence"])), "total row shows factors")
    same(mon, "total", [tot["latest"], tot["ultimate"], tot["reserve"]],
         [E["latest"].sum(), E["ult"].sum(), E["res"].sum()], 1e-9, big[np.isfinite(big)].sum(), what="total row")
    return E


def verify_attrs(mon, r, names):
    for a, col in names.items():
        x = getattr(r, a)
        y = r.summary[col]
        mon.check("attributes", list(x.index) == list(y.index), "{} index", a)
        if a == "maturity":
            mon.check("attributes", list(x) == list(y), "{} differs from summary", a)
        else:
            same(mon, "attributes", x.values, y.values, 0, what=a)


ATTR = {"emergence": "emergence", "ultimate": "ultimate", "maturity": "maturity", "reserve": "reserve", "latest": "latest", "cldfs": "cldf"}


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"], how="mixed")
    C = work.cumobs(t)
    sel, tail = (("all-weighted", 1.) if c["default"] else (c["sel"], c["tail"]))
    av = mon.call("a2a_avgs", t.a2a_avgs).loc[sel]
    f = np.array(av.values, float)
    if np.isnan(f).any():
        mon.seen("undefined-average")       # e.g. medial average of two repeated values
    r = mon.call("base_cl", t.base_cl) if c["default"] else mon.call("base_cl", t.base_cl, sel=sel, tail=tail)
    same(mon, "factors", r.ldfs.values, np.append(f, tail), 0, what="selected factors")
    labels(mon, "factors", r.ldfs.index, c["devs"], "factor periods")
    W = work.wmat(n, c["excl"] + undefined(C))
    exp = oracle.avg_table(np.array(t.a2a.values, float), C, W)[sel]
    same(mon, "factors", f, exp, 1e-9, what="average " + sel)
    verify_summary(c, mon, t, r, f, tail, C)
    verify_attrs(mon, r, ATTR)
    mon.check("attributes", r.tail == tail and r.sel == sel if not c["default"] else r.sel == "all-weighted", "sel {} tail {}", r.sel, r.tail)
