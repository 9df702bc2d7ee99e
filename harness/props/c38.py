"""C38: histories of any run-off shape are estimated by their own maturities, or refused."""
import numpy as np
from lib import gen, oracle, boots
from lib.cmp import same, labels
from lib.core import Inconclusive

RULE = ("Random histories whose origins stand at non-increasing maturities (more origins than periods, several periods per "
        "origin, youngest origins beyond the first period, origins lacking their latest amounts, full rectangles, repeated "
        "and skipped maturities) with exclusions, presentations and prior requests; averages, base and bootstrap estimates "
        "are recomputed origin by origin; Mack must be refused; non-trivial: at least three origins and three periods.")
MUST = ["avg", "base", "base-user", "boot-fit", "boot-sims", "boot-summary", "mack"]
ASSUMPTIONS = ["the oldest origin has reached the last period and no origin stands later than an older one"]
SHAPES = ["tall", "truncated", "steps", "random", "rect", "stale", "talltrunc"]


def maturities(rng, shape):
    if shape == "rect":
        return [gen.ri(rng, 2, 6)] * gen.ri(rng, 2, 7)
    m = gen.ri(rng, 3, 7)
    if shape == "tall":
        return [m] * gen.ri(rng, 2, 5) + list(range(m - 1, 0, -1))
    if shape == "truncated":
        return list(range(m, 0, -1))[:-gen.ri(rng, 1, m - 2)] if m > 2 else [2, 2]
    if shape == "talltrunc":
        return [m] * gen.ri(rng, 2, 4) + list(range(m - 1, 1, -1))
    if shape == "steps":        # several periods per origin
        s = gen.ri(rng, 2, 3)
        m = s * gen.ri(rng, 2, 3) + gen.ri(rng, 1, s)
        return list(range(m, 0, -s))
    if shape == "stale":        # the youngest origins (or one) lack their latest amounts
        k = list(range(m, 0, -1))
        k[-1] = k[-2] = gen.ri(rng, 1, 2)
        if rng.rand() < .5:
            k.append(1)
        return sorted(k, reverse=True)
    k = sorted([gen.ri(rng, 1, m) for _ in range(gen.ri(rng, 2, 7))], reverse=True)
    return [m] + k


def cases(rng, tier):
    k = 120 if tier == "quick" else 2500
    out = []
    while len(out) < k:
        shape = SHAPES[len(out) % len(SHAPES)]
        K = maturities(rng, shape)
        n, m = len(K), max(K)
        if n == m and K == list(range(n, 0, -1)):
            continue
        N = n + m
        C, style = gen.cum_matrix(rng, N, gen.pick(rng, ["smooth", "smooth", "wild", "integer", "neg", "shorttail", "ties"]))
        C = C[:n, :m].copy()
        for i in range(n):
            C[i, K[i]:] = np.nan
        c = {"n": n, "m": m, "K": K, "style": shape, "cells": gen.tolist(gen.incr_of(C)),
             "origins": gen.origin_labels(rng, n), "devs": gen.dev_labels(rng, m)}
        c["pres"], c["route"] = gen.presentation(rng), gen.pick(rng, gen.ROUTES)
        c["warm"] = gen.warm_ops(rng, ops=["a2a", "a2a_avgs", "a2aind", "latest", "triind", "maturity", "rlvi", "base_cl", "to_incr", "to_tbl", "str", "copy", "toggle", "clvi", "base_sel", "a2a_lvi"])
        ex = []
        for _ in range(gen.pick(rng, [0, 0, 1, 2])):
            j = gen.ri(rng, 0, m - 2)
            r = sum(x > j + 1 for x in K)
            if r - sum(e[1] == j for e in ex) > 1:
                e = [gen.ri(rng, 0, r - 1), j]
                ex += [e] if e not in ex else []
        c["excl"] = ex
        c["sel"] = gen.pick(rng, ["all-simple", "all-geometric", "all-medial", "simple-1", "weighted-1", "geometric-1"])
        c["tail"] = gen.tail(rng)
        c["user"] = [gen.factor(rng) for _ in range(m - 1)]
        c["rs"], c["sims"], c["parametric"], c["alpha"] = gen.ri(rng, 0, 10 ** 6), gen.ri(rng, 2, 8), bool(rng.rand() < .35), gen.ri(rng, 0, 2)
        c["q"] = [.25, .9]
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 3 and c["m"] >= 3


def build(c, mon):
    t = gen.build(c, mon, c["pres"], c["route"], "cum")
    n, m = c["n"], c["m"]
    for op in c["warm"]:
        if op == "toggle":
            t.a2aind
            o, d = c["origins"][0], c["devs"][0]
            t.a2aind = (o, d, 0)
            t.a2aind = (o, d, 1)
        elif op == "base_sel":
            t.base_cl(sel=[1.1] * (m - 1), tail=1.01)
        else:
            gen.warm(t, [op], mon)
    if c["excl"]:
        t.a2aind
        for i, j in c["excl"]:
            t.a2aind = (c["origins"][i], c["devs"][j], 0)
    return t


def averages(c, C):
    """{label: factors}, every period over the origins that reached the next one."""
    n, m, K = c["n"], c["m"], c["K"]
    with np.errstate(all="ignore"):
        F = C[:, 1:] / C[:, :-1]
    rows = sum(k > 1 for k in K)
    out = {}
    for kind in ("simple", "geometric", "medial", "weighted"):
        for k in list(range(1, rows)) + [0]:
            v = []
            for j in range(m - 1):
                r = sum(x > j + 1 for x in K)
                w = np.array([0 if [i, j] in c["excl"] else 1 for i in range(r)])
                v.append(oracle.average(kind, k, F[:r, j], C[:r, j], C[:r, j + 1], w))
            out[oracle.avg_label(kind, k)] = np.array(v, float)
    return out


def project(c, C, f, tail):
    n, m, K = c["n"], c["m"], c["K"]
    full = np.append(f, tail)
    cl = np.cumprod(full[::-1])[::-1]
    latest = np.array([C[i, K[i] - 1] for i in range(n)])
    cldf = np.array([cl[k - 1] for k in K])
    sq = C.copy()
    for i in range(n):
        for j in range(K[i], m):
            sq[i, j] = sq[i, j - 1] * full[j - 1]
    return full, latest, cldf, latest * cldf, sq


def base(c, mon, kind, r, C, f, tail):
    n, m, K = c["n"], c["m"], c["K"]
    full, latest, cldf, ult, sq = project(c, C, f, tail)
    big = np.nanmax(np.abs(sq)) if np.isfinite(sq).any() else 1.
    labels(mon, kind, r.ldfs.index, c["devs"], "factor periods")
    same(mon, kind, r.ldfs.values.astype(float), full, 1e-9, what="factors")
    s = r.summary
    labels(mon, kind, s.index, list(c["origins"]) + ["total"], "summary rows")
    labels(mon, kind, s["maturity"], [str(c["devs"][k - 1]) for k in K] + [""], "maturities")
    o = s.iloc[:-1]
    same(mon, kind, o["latest"].values.astype(float), latest, 1e-12, what="latest")
    same(mon, kind, o["cldf"].values.astype(float), cldf, 1e-9, what="cumulative factors at maturities {}".format(K))
    same(mon, kind, o["emergence"].values.astype(float), 1 / cldf, 1e-9, what="emergence")
    same(mon, kind, o["ultimate"].values.astype(float), ult, 1e-9, what="ultimates")
    same(mon, kind, o["reserve"].values.astype(float), ult - latest, 1e-9, big, what="reserves")
    tot = s.loc["total"]
    same(mon, kind, [float(tot[k]) for k in ("latest", "ultimate", "reserve")], [latest.sum(), ult.sum(), (ult - latest).sum()], 1e-9, big * n, what="total")
    T = r.trisqrd
    labels(mon, kind, T.index, c["origins"], "projection rows")
    labels(mon, kind, list(T.columns), list(c["devs"]) + ["ultimate"], "projection columns")
    same(mon, kind, T.values[:, :m].astype(float), sq, 1e-9, what="projection")
    same(mon, kind, T.values[:, m].astype(float), sq[:, -1] * tail, 1e-9, what="projected ultimate")


def fitted(c, C):
    """Fitted amounts, fitted and actual increments."""
    n, m, K = c["n"], c["m"], c["K"]
    W = averages(c, C)["all-weighted"]
    fit = np.full((n, m), np.nan)
    for i in range(n):
        fit[i, K[i] - 1] = C[i, K[i] - 1]
        for j in range(K[i] - 1, 0, -1):
            fit[i, j - 1] = fit[i, j] / W[j - 1]
    return W, fit, np.diff(fit, axis=1, prepend=0.), np.diff(C, axis=1, prepend=0.)


def usable(c, C):
    """The data provide factors and at least two residuals to resample."""
    with np.errstate(all="ignore"):
        W, fit, inc, act = fitted(c, C)
        if not np.isfinite(W).all() or (W <= 0).any():
            return False
        us = (act - inc) / np.sqrt(np.abs(inc))
    big = np.nanmax(np.abs(C))
    core = us[:-1, :-1]
    core = core[np.isfinite(core)]
    return bool((np.abs(inc[~np.isnan(C)]) > 1e-9 * big).all() and (np.abs(core) > 1e-6 * np.sqrt(big)).sum() >= 2)


def boot(c, mon, t, C):
    n, m, K, S = c["n"], c["m"], c["K"], c["sims"]
    if not usable(c, C):
        raise Inconclusive("no usable residuals")
    W, fit, inc, act = fitted(c, C)
    obs = ~np.isnan(C)
    big = np.nanmax(np.abs(C))
    r = mon.call("boot_cl", t.boot_cl, sims=S, random_state=c["rs"], parametric=c["parametric"], q=c["q"])
    labels(mon, "boot-fit", r.ldfs.index, c["devs"], "factor periods")
    same(mon, "boot-fit", r.ldfs.values.astype(float), np.append(W, 1.), 1e-9, what="factors")
    same(mon, "boot-fit", r.fitted_tri_cum.values.astype(float), fit, 1e-9, what="fitted amounts")
    same(mon, "boot-fit", r.fitted_tri_incr.values.astype(float), inc, 1e-8, big, what="fitted increments")
    fi = r.fitted_tri_incr.values.astype(float)
    with np.errstate(all="ignore"):
        eus = (act - fi) / np.sqrt(np.abs(fi))
    same(mon, "boot-fit", r.unscaled_residuals.values.astype(float), eus, 1e-7, np.sqrt(big), what="residuals")
    u = r.unscaled_residuals.values.astype(float)
    adj = r.adjusted_residuals.values.astype(float)
    same(mon, "boot-fit", [r.scale_param], [np.nansum(u ** 2) / r.dof], 1e-9, what="scale")
    same(mon, "boot-fit", adj, u * np.sqrt(obs.sum() / r.dof), 1e-9, np.nanmax(np.abs(adj)), what="adjusted residuals")
    # simulated cells
    d = r.sims_data
    mon.check("boot-sims", len(d) == S * n * m, "{} records for {} replicates of {} x {}", len(d), S, n, m)
    pos = {o: k for k, o in enumerate(c["origins"])}
    per = {e: k for k, e in enumerate(c["devs"])}
    I, J, P = d["sim"].values.astype(int), np.array([pos[int(v)] for v in d["origin"]]), np.array([per[int(v)] for v in d["dev"]])
    flat = (I * n + J) * m + P
    mon.check("boot-sims", np.array_equal(np.sort(flat), np.arange(S * n * m)), "cells of the replicates are not covered once each")
    Q = {}
    for k in ("samp_incr", "samp_cum", "ldf", "ultimate", "resid", "final_incr"):
        a = np.empty(S * n * m)
        a[flat] = d[k].values.astype(float)
        Q[k] = a.reshape(S, n, m)
    rec = np.empty(S * n * m, dtype=object)
    rec[flat] = d["rectype"].values
    rec = rec.reshape(S, n, m)
    mon.check("boot-sims", all((rec[s] == np.where(obs, "actual", "forecast")).all() for s in range(S)), "observed cells not told from projected ones")
    fit1 = fi.copy()
    fit1[:, 0] = np.where(fit1[:, 0] < 0, 1., fit1[:, 0])
    R = r.reserve_dist
    keys = {(int(s), o if isinstance(o, str) else int(o)): k for k, (s, o) in enumerate(zip(R["sim"], R["origin"]))}
    names = list(c["origins"]) + ["total"]
    mon.check("boot-summary", len(R) == len(keys) == S * (n + 1) and all((s, o) in keys for s in range(S) for o in names), "reserve_dist has {} rows", len(R))
    rd = {k: np.array([[R[k].values[keys[(s, o)]] for o in names] for s in range(S)], float) for k in ("latest", "ultimate", "reserve")}
    for s in range(S):
        x = Q["samp_incr"][s]
        if not c["parametric"]:
            pool = adj[:-1, :-1]
            pool = pool[~np.isnan(pool) & (pool != 0)]
            got = Q["resid"][s][obs]
            gap = np.abs(got[:, None] - pool[None, :]).min(axis=1).max()
            mon.check("boot-sims", gap <= 1e-9 * np.abs(pool).max(), "a residual outside the pool was resampled")
        e = fit1 + Q["resid"][s] * np.sqrt(np.abs(fit1))
        same(mon, "boot-sims", x[obs], e[obs], 1e-8, big, what="resampled increments")
        cumv = Q["samp_cum"][s]
        same(mon, "boot-sims", cumv[obs], np.cumsum(x, axis=1)[obs], 1e-9, big, what="resampled amounts")
        f = np.ones(m)
        for j in range(m - 1):
            k = sum(v > j + 1 for v in K)
            f[j] = cumv[:k, j + 1].sum() / cumv[:k, j].sum()
            o = Q["ldf"][s][:, j]
            mon.check("boot-sims", np.allclose(o, f[j], rtol=1e-7), "replicate {} factor of period {}: {} expected {}", s, c["devs"][j], o[0], f[j])
        for i in range(n):
            v = cumv[i, K[i] - 1]
            for j in range(K[i], m):
                v = v * f[j - 1]
                z = np.abs(f).max() ** m * big
                same(mon, "boot-sims", [cumv[i, j]], [v], 1e-6, z, what="replicate {} origin {} period {}".format(s, c["origins"][i], c["devs"][j]))
            fut = slice(K[i], m)
            same(mon, "boot-sims", x[i, 1:], np.diff(cumv[i]), 1e-9, np.abs(cumv[i]).max(), what="projected increments")
            fin, y = Q["final_incr"][s][i, fut], x[i, fut]
            mon.check("boot-sims", (fin * np.where(y > 0, 1, -1) >= 0).all(), "final increments changed sign: {} from {}", fin, y)
            same(mon, "boot-sims", Q["final_incr"][s][i, :K[i]], x[i, :K[i]], 1e-12, big, what="observed increments altered by process error")
            run_ = np.cumsum(Q["final_incr"][s][i])
            top = np.abs(run_).max()
            same(mon, "boot-sims", [Q["ultimate"][s][i, -1]], [run_[-1]], 1e-9, top, what="ultimate")
            lat = cumv[i, K[i] - 1]
            same(mon, "boot-summary", rd["latest"][s, i], lat, 1e-9, top, what="latest of origin {} in replicate {}".format(c["origins"][i], s))
            same(mon, "boot-summary", rd["ultimate"][s, i], run_[-1], 1e-9, top, what="ultimate recorded")
            e = 0. if K[i] == m else run_[-1] - lat
            same(mon, "boot-summary", rd["reserve"][s, i], e, 1e-9, top, what="reserve recorded for origin {} of maturity {}".format(c["origins"][i], K[i]))
            if K[i] == m:
                mon.check("boot-summary", rd["reserve"][s, i] == 0, "a developed origin holds a reserve of {}", rd["reserve"][s, i])
    top = np.abs(rd["ultimate"]).max() * n
    for k in rd:
        same(mon, "boot-summary", rd[k][:, n], rd[k][:, :n].sum(axis=1), 1e-9, top, what="total " + k)
    _, latest, cldf, _, sq = project(c, C, W, 1.)
    g = r.summary
    labels(mon, "boot-summary", g.index, names, "rows")
    labels(mon, "boot-summary", g["maturity"], [str(c["devs"][k - 1]) for k in K] + [""], "maturities")
    ue = rd["ultimate"][:, :n].mean(axis=0)
    ue[[i for i in range(n) if K[i] == m]] = latest[[i for i in range(n) if K[i] == m]]
    same(mon, "boot-summary", g["cldf"].values[:-1].astype(float), cldf, 1e-9, what="cumulative factors")
    same(mon, "boot-summary", g["latest"].values.astype(float), np.append(latest, latest.sum()), 1e-9, big * n, what="latest")
    same(mon, "boot-summary", g["ultimate"].values.astype(float), np.append(ue, ue.sum()), 1e-9, top, what="ultimates")
    same(mon, "boot-summary", g["reserve"].values.astype(float), np.append(ue - latest, (ue - latest).sum()), 1e-9, top, what="reserves")
    same(mon, "boot-summary", g["std_error"].values.astype(float), rd["reserve"].std(axis=0, ddof=1), 1e-8, top, what="standard errors")
    same(mon, "boot-summary", g[["25%", "90%"]].values.astype(float), np.quantile(rd["reserve"], c["q"], axis=0).T, 1e-8, top, what="quantiles")
    same(mon, "boot-fit", r.trisqrd.values[:, :m].astype(float), sq, 1e-9, what="projection")


def run(c, mon):
    t = build(c, mon)
    n, m = c["n"], c["m"]
    C = np.array(t.values, float)
    A = gen.toarr(c["cells"])
    mon.check("cells", C.shape == (n, m), "shape {}", C.shape)
    same(mon, "cells", C, np.cumsum(A, axis=1), 1e-9, np.nanmax(np.abs(C)), what="cells")
    mon.seen("shape:" + c["style"])
    E = averages(c, C)
    tab = mon.call("a2a_avgs", t.a2a_avgs)
    mon.check("avg", sorted(tab.index) == sorted(E), "labels {} expected {}", sorted(tab.index), sorted(E))
    labels(mon, "avg", tab.columns, c["devs"][:-1], "average periods")
    for lab, row in E.items():
        same(mon, "avg", tab.loc[lab].values.astype(float), row, 1e-9, what=lab)
    for sel in ("all-weighted", c["sel"]):
        if sel in E and np.isfinite(E[sel]).all():
            base(c, mon, "base", mon.call("base_cl", t.base_cl, sel=sel, tail=c["tail"]), C, E[sel], c["tail"])
    base(c, mon, "base-user", mon.call("base_cl", t.base_cl, sel=c["user"], tail=c["tail"]), C, np.array(c["user"]), c["tail"])
    mon.raises("mack", ValueError, t.mack_cl, alpha=c["alpha"])
    boot(c, mon, t, C)
