"""C14: user-selected development factors are used as given."""
import numpy as np
import pandas as pd
from lib import gen, oracle, work
from lib.cmp import same, labels
from props.c12 import verify_summary

RULE = ("Random complete triangles and random factor sequences (below, at, above 1, zero, negative; integers) as list, tuple, array, "
        "labelled Series in any order, positional Series with assorted indexes, with tails and exclusions, passed one or "
        "more times; wrong lengths 0..n+2 in each form; non-trivial: at least three origins.")
MUST = ["used", "summary", "again", "reject"]


def cases(rng, tier):
    k = 150 if tier == "quick" else 3500
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=2, hi=8)
        n = c["n"]
        lo, hi = gen.pick(rng, [[.8, 2.3], [.8, 2.3], [.3, 12.], [.999, 1.001]])
        fs = [gen.factor(rng, lo, hi) for _ in range(n - 1)]
        if rng.rand() < .2:
            fs = [float(round(x)) for x in fs]
            fs = [max(1., x) for x in fs]
        if i % 5 == 3:                      # salvage and undone periods
            fs[gen.ri(rng, 0, n - 2)] = float(gen.pick(rng, [0., 0., -.4, 1e-9]))
        c["sel"] = fs
        c["ints"] = bool(rng.rand() < .3 and all(x == int(x) for x in fs))
        c["form"] = ["list", "tuple", "array", "labelled", "shuffled", "positional", "strindex", "reversed_pos", "npfloat"][i % 9]
        c["tail"] = gen.tail(rng)
        c["excl"] = [e for e in (work.exclusions(rng, n) if rng.rand() < .3 else []) if e[0] != n - 2 - e[1]]
        c["wrong"] = [gen.pick(rng, [x for x in range(0, n + 3) if x != n - 1]), gen.pick(rng, ["list", "array", "series", "tuple"])]
        c["seed"] = gen.ri(rng, 0, 10 ** 6)
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 3


def obj(c, D):
    f = c["sel"]
    if c["ints"]:
        f = [int(x) for x in f]
    form = c["form"]
    r = np.random.RandomState(c["seed"])
    if form == "list":
        return list(f)
    if form == "tuple":
        return tuple(f)
    if form == "array":
        return np.array(f)
    if form == "npfloat":
        return [np.float64(x) for x in f]
    if form == "labelled":
        return pd.Series(f, index=D[:-1], name="mine")
    if form == "shuffled":
        s = pd.Series(f, index=D[:-1])
        return s.iloc[r.permutation(len(f))]
    if form == "positional":
        idx = list(range(len(f)))
        if set(idx) == set(D[:-1]):
            idx = [x + 1000 for x in idx]
        return pd.Series(f, index=idx)
    if form == "reversed_pos":
        return pd.Series(f, index=[-5 - k for k in range(len(f))])
    return pd.Series(f, index=["f{}".format(9 - k) for k in range(len(f))])


def run(c, mon):
    n = c["n"]
    D = c["devs"]
    t = work.build(c, mon)
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    C = work.cumobs(t)
    sel = obj(c, D)
    for k in range(2):
        kind = "used" if k == 0 else "again"
        r = mon.call("base_cl", t.base_cl, sel=sel, tail=c["tail"])
        labels(mon, kind, r.ldfs.index, D, "factor periods")
        same(mon, kind, r.ldfs.values, c["sel"] + [c["tail"]], 0, what="factors in force ({}, pass {})".format(c["form"], k))
        verify_summary(c, mon, t, r, np.array(c["sel"]), c["tail"], C)
        mon.check(kind, r.tail == c["tail"], "tail {}", r.tail)
    m, form = c["wrong"]
    bad = [1.1 + .01 * k for k in range(m)]
    x = {"list": bad, "tuple": tuple(bad), "array": np.array(bad, float), "series": pd.Series(bad, index=(D + [D[-1] + 1, D[-1] + 2])[:m], dtype=float)}[form]
    mon.raises("reject", ValueError, t.base_cl, sel=x, tail=c["tail"])
    # the refusal leaves nothing behind
    r = mon.call("base_cl", t.base_cl, sel=sel, tail=c["tail"])
    same(mon, "again", r.ldfs.values, c["sel"] + [c["tail"]], 0, what="factors after a refused selection")
