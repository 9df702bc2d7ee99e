"""Every number an estimate shows, by position (labels removed), for metamorphic comparisons."""
import numpy as np


def nums(x):
    return np.asarray(x, dtype=float)


def stats(t, mon):
    n = len(t.columns)
    out = {"C": nums(t.values), "a2a": nums(t.a2a.values), "nbr_cells": nums([t.nbr_cells]),
           "latest": nums(t.latest["latest"]), "latest_by_origin": nums(t.latest_by_origin),
           "latest_by_devp": nums(t.latest_by_devp), "triind": nums(t.triind.values),
           "col_offset": nums(t.rlvi["col_offset"]), "row_offset": nums(t.clvi["row_offset"]),
           "maturity": nums([list(t.columns).index(v) for v in t.maturity]),
           "diag1": nums(mon.call("diagonal", t.diagonal, -1)["value"]) if n > 1 else nums([]),
           "incr": nums(mon.call("to_incr", t.to_incr).values), "tbl": nums(mon.call("to_tbl", t.to_tbl).iloc[:, 2]),
           "a2aind": nums(t.a2aind.values)}
    av = mon.call("a2a_avgs", t.a2a_avgs)
    for lab in av.index:
        out["avg:" + lab] = nums(av.loc[lab].values)
    if n >= 4:
        out["rank"] = nums(t.ranked_a2a.values)
    out["assign"] = nums(t.a2a_assignment.values)
    return out


def base(r):
    out = {"s:" + k: nums(r.summary[k]) for k in ("cldf", "emergence", "latest", "ultimate", "reserve")}
    out["ldfs"] = nums(r.ldfs.values)
    out["sq"] = nums(r.trisqrd.values)
    return out


def mack(r, mon, tests=True):
    out = {"s:" + k: nums(r.summary[k]) for k in r.summary.columns if k != "maturity"}
    out["ldfs"], out["devpvar"], out["ldfvar"] = nums(r.ldfs.values), nums(r.devpvar.values), nums(r.ldfvar.values)
    out["proc"], out["par"], out["mse"] = nums(r.process_error.values), nums(r.parameter_error.values), nums(r.mse.values)
    out["sq"] = nums(r.trisqrd.values)
    g = mon.call("get_quantiles", r.get_quantiles, [.1, .9])
    out["g:10"], out["g:90"] = nums(g.iloc[:, 0]), nums(g.iloc[:, 1])
    if tests:
        (a, b), T = mon.call("devp_corr_test", r.devp_corr_test, .5)
        out["devp_test"] = nums([a, b, T])
        (a, b), Z = mon.call("cy_effects_test", r.cy_effects_test, .1)
        out["cy_test"] = nums([a, b, Z])
    return out


def boot_fit(r):
    return {"fit_cum": nums(r.fitted_tri_cum.values), "fit_incr": nums(r.fitted_tri_incr.values),
            "us": nums(r.unscaled_residuals.values), "adj": nums(r.adjusted_residuals.values),
            "pool": nums(r.sampling_dist if r.sampling_dist is not None else []), "scale": nums([r.scale_param]),
            "dof": nums([r.dof]), "ldfs": nums(r.ldfs.values), "sq": nums(r.trisqrd.values)}


def boot(r, mon):
    out = {"s:" + k: nums(r.summary[k]) for k in r.summary.columns if k != "maturity"}
    out.update(boot_fit(r))
    rd = r.reserve_dist
    for k in ("latest", "ultimate", "reserve"):
        out["rd:" + k] = nums(rd[k])
    s = r.sims_data.sort_values(["sim", "origin", "dev"])
    for k in ("incr", "resid", "samp_incr", "samp_cum", "ldf", "final_incr", "ultimate", "reserve", "param1", "param2"):
        out["sd:" + k] = nums(s[k])
    g = mon.call("get_quantiles", r.get_quantiles, [.1, .9])
    out["g:10"], out["g:90"] = nums(g.iloc[:, 0]), nums(g.iloc[:, 1])
    return out
