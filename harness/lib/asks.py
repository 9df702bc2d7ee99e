"""Requests a user can make of a cumulative triangle, described as JSON, and their full answers."""
import numpy as np
from lib import gen, snap

PROPS = ["latest", "latest_by_origin", "latest_by_devp", "triind", "rlvi", "clvi", "maturity", "nbr_cells", "devp",
         "origins", "a2a", "a2aind", "a2a_lvi", "ranked_a2a", "a2a_assignment"]
SELS = ["all-weighted", "all-simple", "all-medial", "all-geometric", "simple-2", "weighted-2", "medial-2", "geometric-1",
        "simple-1", "weighted-1"]
QS = [.75, .95, [.75, .95], [.5], [.1, .9, .5], (.05, .995), [.25, .25, .75], 0, 1, [0., 1.]]


def rand_ask(rng, n, boot=True, plots=False):
    kinds = ["prop"] * 5 + ["avgs"] * 2 + ["base"] * 3 + ["sel"] + ["mack"] * 3 + ["incr", "tbl", "diag", "str", "sq"] + (["boot"] * 2 if boot else [])
    k = gen.pick(rng, kinds)
    if n < 5 and k == "mack":
        k = "base"
    if n < 4 and k == "boot":
        k = "avgs"
    if k == "prop":
        p = gen.pick(rng, PROPS)
        return ["prop", "latest" if (p == "ranked_a2a" and n < 4) else p]
    if k == "base":
        s = gen.pick(rng, SELS if n > 3 else SELS[:4])
        return ["base", s, gen.pick(rng, [1., 1., 1.05, 1.1])]
    if k == "sel":
        return ["sel", [gen.factor(rng, 1., 2.) for _ in range(n - 1)], gen.tail(rng), gen.pick(rng, ["list", "series", "array"])]
    if k == "mack":
        return ["mack", gen.ri(rng, 0, 2), gen.pick(rng, ["norm", "lognorm"]), gen.pick(rng, QS), bool(rng.rand() < .4), gen.pick(rng, QS[:8])]
    if k == "boot":
        return ["boot", gen.ri(rng, 1, 5), gen.ri(rng, 2, 6), gen.pick(rng, QS), bool(rng.rand() < .3), bool(rng.rand() < .4), gen.pick(rng, QS[:8])]
    if k == "diag":
        return ["diag", -gen.ri(rng, 0, n - 1)]
    return [k]


def selobj(t, f, form):
    import pandas as pd
    if form == "series":
        return pd.Series(f, index=list(t.columns[:-1]))
    return np.array(f) if form == "array" else list(f)


def ask(t, a, mon, keep=None):
    """Put request `a` to triangle t; everything the answer shows, as a snapshot."""
    k = a[0]
    call = mon.call if mon else (lambda kind, f, *x, **y: f(*x, **y))
    if k == "prop":
        return snap.snap(call(a[1], lambda: getattr(t, a[1])))
    if k == "avgs":
        return snap.snap(call("a2a_avgs", t.a2a_avgs))
    if k == "incr":
        return snap.snap(call("to_incr", t.to_incr))
    if k == "tbl":
        return [snap.snap(call("to_tbl", t.to_tbl)), snap.snap(call("to_tbl", t.to_tbl, dropna=False))]
    if k == "diag":
        return snap.snap(call("diagonal", t.diagonal, a[1]))
    if k == "str":
        return [str(t), repr(t)]
    if k == "sq":
        return snap.snap(call("base_cl", t.base_cl).trisqrd)
    if k == "base":
        r = call("base_cl", t.base_cl, sel=a[1], tail=a[2])
    elif k == "sel":
        r = call("base_cl", t.base_cl, sel=selobj(t, a[1], a[3]), tail=a[2])
    elif k == "mack":
        r = call("mack_cl", t.mack_cl, alpha=a[1], dist=a[2], q=a[3], two_sided=a[4])
        if keep is not None:
            keep.append((k, r))
        out = [snap.result(r), snap.snap(call("get_quantiles", r.get_quantiles, a[5])), str(r)]
        out.append(list(map(float, _flat(call("cy_effects_test", r.cy_effects_test, .1)))))
        T = call("devp_corr_test", r.devp_corr_test, .5)
        out.append(("~", [float(v) for v in _flat(T)]))      # the bound is found by root search
        return out
    elif k == "boot":
        r = call("boot_cl", t.boot_cl, random_state=a[1], sims=a[2], q=a[3], two_sided=a[4], parametric=a[5])
        if keep is not None:
            keep.append((k, r))
        out = [snap.result(r), snap.snap(call("get_quantiles", r.get_quantiles, a[6])), str(r), snap.snap(r.origin_dist)]
        if not a[5]:
            out.append(snap.snap(r.residuals_detail))
        return out
    if keep is not None:
        keep.append((k, r))
    return [snap.result(r), str(r)]


def _flat(t):
    return [t[0][0], t[0][1], t[1]]
