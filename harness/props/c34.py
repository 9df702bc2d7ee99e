"""C34: results report what was asked and what was computed, consistently across estimators."""
import pickle
import numpy as np
import pandas as pd
from lib import gen, work, snap
from lib.cmp import same, labels
from props.c12 import verify_attrs, ATTR

RULE = ("Two random triangles per case, with prior requests and exclusions; three to five results of all estimators under "
        "random options are held at once and only then inspected: options reported, components' labels and types, "
        "agreement of attributes with the summary and of the deterministic part across estimators, copies made by "
        "pickle; non-trivial: at least two different estimators.")
MUST = ["options", "components", "attributes", "agreement", "kept", "stored"]
ASSUMPTIONS = ["agreement across estimators is judged where no link ratio is excluded"]
NAMES = ["all-simple", "all-geometric", "all-medial", "all-weighted", "simple-2", "weighted-2", "geometric-1"]
INTERP = ["linear", "lower", "higher", "midpoint", "nearest"]
QS = [.75, .95, [.75, .95], [.5], [.9, .1], [.05, .995]]


def cases(rng, tier):
    k = 90 if tier == "quick" else 1500
    out = []
    for i in range(k):
        tris = []
        for _ in range(2):
            c = work.est_case(rng, n=gen.pick(rng, [4, 5, 6, 7]), style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov"]))
            c["excl"] = [[0, 0]] if rng.rand() < .25 else []
            tris.append(c)
        reqs = []
        kinds = ["base", "mack", "boot"] + [gen.pick(rng, ["base", "sel", "sel", "mack", "boot"]) for _ in range(gen.ri(rng, 0, 2))]
        for kind in [kinds[j] for j in rng.permutation(len(kinds))]:
            w = gen.ri(rng, 0, 1)
            n = tris[w]["n"]
            if kind == "base":
                o = {"sel": gen.pick(rng, NAMES), "tail": gen.tail(rng)}
            elif kind == "sel":
                o = {"sel": [gen.factor(rng, 1., 2.) for _ in range(n - 1)], "tail": gen.tail(rng),
                     "form": gen.pick(rng, ["list", "array", "series", "tuple"])}
            elif kind == "mack":
                o = {"alpha": gen.ri(rng, 0, 2), "dist": gen.pick(rng, ["norm", "lognorm"]), "q": gen.pick(rng, QS), "two_sided": bool(rng.rand() < .4),
                     "tail": float(gen.pick(rng, [1., 1.05, .98, 1.2]))}
            else:
                o = {"sims": gen.ri(rng, 2, 25), "q": gen.pick(rng, QS), "parametric": bool(rng.rand() < .5), "two_sided": bool(rng.rand() < .4),
                     "interpolation": gen.pick(rng, INTERP), "random_state": gen.ri(rng, 0, 10 ** 6), "procdist": "gamma"}
            drop = [x for x in sorted(o) if x not in ("form", "random_state") and not (kind == "sel" and x == "sel") and rng.rand() < .2]
            reqs.append([kind, w, o, drop])
        out.append({"tris": tris, "reqs": reqs})
    return out


def nontrivial(c):
    return len({r[0] for r in c["reqs"]}) > 1


DEFAULTS = {
    # (Mack: a tail is accepted and reported; the projection stops at the last period)
    "base": {"sel": "all-weighted", "tail": 1.}, "sel": {"tail": 1.},
    "mack": {"alpha": 1, "dist": "lognorm", "q": [.75, .95], "two_sided": False, "tail": 1.},
    "boot": {"sims": 1000, "q": [.75, .95], "procdist": "gamma", "parametric": False, "two_sided": False, "interpolation": "linear"},
}


def listed(q):
    return [float(x) for x in q] if isinstance(q, (list, tuple, np.ndarray)) else [float(q)]


def series(mon, kind, x, index, what):
    mon.check(kind, isinstance(x, pd.Series), "{} is a {}", what, type(x).__name__)
    labels(mon, kind, x.index, index, what)


def frame(mon, kind, x, index, columns, what):
    mon.check(kind, isinstance(x, pd.DataFrame), "{} is a {}", what, type(x).__name__)
    labels(mon, kind, x.index, index, what + " rows")
    labels(mon, kind, x.columns, columns, what + " columns")


def run(c, mon):
    T, cells = [], []
    for x in c["tris"]:
        t = work.build(x, mon)
        if x["excl"]:
            work.exclude(t, x, x["excl"])
        T.append(t)
        cells.append(np.array(t.values, float))
    held = []
    for kind, w, o, drop in c["reqs"]:
        t, x = T[w], c["tris"][w]
        k = {a: b for a, b in o.items() if a not in drop and a != "form"}
        if kind == "sel":
            f = o["sel"]
            k["sel"] = {"list": list(f), "tuple": tuple(f), "array": np.array(f), "series": pd.Series(f, index=x["devs"][:-1])}[o["form"]]
        if kind == "boot" and "sims" in drop:
            if x["n"] <= 5:
                o["sims"] = DEFAULTS["boot"]["sims"]
            else:
                k["sims"] = o["sims"] = 9
        fn = {"base": t.base_cl, "sel": t.base_cl, "mack": t.mack_cl, "boot": t.boot_cl}[kind]
        r = mon.call(kind, fn, **k)
        held.append((kind, w, o, drop, r, snap.result(r)))
    det = {}
    for kind, w, o, drop, r, before in held:
        x, t = c["tris"][w], T[w]
        O, D, n = x["origins"], x["devs"], x["n"]
        want = dict(DEFAULTS[kind], **{a: b for a, b in o.items() if a not in drop or (kind == "boot" and a == "sims")})
        # nothing reported has changed because of the later requests
        now = snap.result(r)
        mon.check("kept", snap.same(before, now), "{}: {}", kind, snap.diff(before, now))
        # options
        if kind in ("base", "sel"):
            if kind == "base":
                mon.check("options", isinstance(r.sel, str) and r.sel == want["sel"], "sel {!r}, asked {!r}", r.sel, want["sel"])
            else:
                same(mon, "options", np.asarray(r.sel, float), np.append(want["sel"], want["tail"]), 0, what="sel, documented as identical to the factors")
            mon.check("options", r.tail == want["tail"], "tail {}, asked {}", r.tail, want["tail"])
        elif kind == "mack":
            mon.check("options", r.alpha == want["alpha"] and r.dist == want["dist"] and r.tail == want["tail"], "alpha {} dist {} tail {}, asked {}", r.alpha, r.dist, r.tail, want)
        else:
            mon.check("options", r.sims == want["sims"] and r.procdist == want["procdist"] and bool(r.parametric) == want["parametric"]
                      and r.interpolation == want["interpolation"] and r.tail == 1,
                      "sims {} procdist {} parametric {} interpolation {} tail {}, asked {}", r.sims, r.procdist, r.parametric, r.interpolation, r.tail, want)
            mon.check("options", sorted(listed(r.q)) == sorted(listed(want["q"])), "q {}, asked {}", r.q, want["q"])
        # the triangle
        frame(mon, "components", r.tri, O, D, "tri")
        mon.check("components", type(r.tri) is type(t), "tri is a {}", type(r.tri).__name__)
        same(mon, "components", np.array(r.tri.values, float), cells[w], 0, what="tri")
        # summary
        S = r.summary
        cols = ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve"] + (["std_error", "cv"] if kind in ("mack", "boot") else [])
        mon.check("components", [a for a in S.columns if not str(a).endswith("%")] == cols, "summary columns {}", list(S.columns))
        labels(mon, "components", S.index, O + ["total"], "summary rows")
        mon.check("components", all(S[a].dtype.kind == "f" for a in S.columns if a != "maturity"), "summary column types {}", S.dtypes.tolist())
        if kind in ("mack", "boot"):
            q = listed(want["q"])
            q = [(1 - v) / 2 for v in q] + [(1 + v) / 2 for v in q] if want["two_sided"] else q
            mon.check("options", len([a for a in S.columns if a.endswith("%")]) == len(set(np.round(q, 12))), "{} for quantiles {}", list(S.columns), q)
            series(mon, "attributes", r.mse, O + ["total"], "mse")
            same(mon, "attributes", r.mse.values.astype(float), S["std_error"].values.astype(float) ** 2, 1e-12, what="mse")
        verify_attrs(mon, r, dict(ATTR, **({"std_error": "std_error", "cv": "cv"} if kind in ("mack", "boot") else {})))
        # factors and squared triangle
        series(mon, "components", r.ldfs, D, "ldfs")
        mon.check("components", isinstance(r.trisqrd, pd.DataFrame), "trisqrd is a {}", type(r.trisqrd).__name__)
        labels(mon, "components", r.trisqrd.index, O, "trisqrd rows")
        mon.check("components", list(r.trisqrd.columns)[:n] == D, "trisqrd columns {}", list(r.trisqrd.columns))
        X = np.array(r.trisqrd.iloc[:, :n].values, float)
        obs = ~np.isnan(cells[w])
        same(mon, "components", X[obs], cells[w][obs], 0, what="observed part of trisqrd")
        if kind == "mack":
            for a, idx in (("process_error", O), ("parameter_error", O), ("rvs", O + ["total"])):
                series(mon, "components", getattr(r, a), idx, a)
            for a in ("devpvar", "ldfvar"):
                v = getattr(r, a)
                series(mon, "components", v, D[:-1], a)
            pe, qe = r.process_error.values.astype(float), r.parameter_error.values.astype(float)
            same(mon, "attributes", S["std_error"].values.astype(float)[:-1] ** 2, np.where(pe + qe < 0, np.nan, pe + qe), 1e-9, what="process + parameter error")
        if kind == "boot":
            for a in ("fitted_tri_cum", "fitted_tri_incr", "unscaled_residuals", "adjusted_residuals"):
                frame(mon, "components", getattr(r, a), O, D, a)
            mon.check("components", (r.sampling_dist is None) == want["parametric"], "sampling_dist {}", type(r.sampling_dist).__name__)
            if r.sampling_dist is not None:
                pool = r.adjusted_residuals.values.astype(float)
                pool = np.sort(pool[~np.isnan(pool) & (pool != 0)])
                got = np.sort(np.asarray(r.sampling_dist, float).ravel())
                mon.check("components", isinstance(r.sampling_dist, np.ndarray) and np.isin(got, pool).all() and got.size >= pool.size - 2, "sampling_dist {} of {}", got, pool)
                mon.check("components", list(r.residuals_detail.columns) == ["unscaled", "adjusted"], "residuals_detail columns {}", list(r.residuals_detail.columns))
            mon.check("components", float(r.scale_param) >= 0 and float(r.dof) > 0, "scale {} dof {}", r.scale_param, r.dof)
            mon.check("components", set(r.sims_data["sim"]) == set(range(want["sims"])) and set(r.reserve_dist["sim"]) == set(range(want["sims"])), "simulations recorded {}", sorted(set(r.sims_data["sim"])))
            mon.check("components", {"sim", "origin", "latest", "ultimate", "reserve"} <= set(r.reserve_dist.columns), "reserve_dist columns {}", list(r.reserve_dist.columns))
        # deterministic part, per triangle
        name = {"mack": ["all-simple", "all-weighted", "x"][want.get("alpha", 0)], "boot": "all-weighted"}.get(kind, want.get("sel"))
        if kind != "sel" and not x["excl"] and (kind == "mack" or want.get("tail", 1.) == 1.):
            d = [np.array(r.ldfs.values, float), np.array(r.cldfs.values[:-1], float), np.array(r.latest.values, float), X]
            if name != "x":
                det.setdefault((w, name), []).append((kind, d))
            det.setdefault((w, "latest"), []).append((kind, d[2:3]))
        mat = [str(a) for a in r.maturity.values[:-1]]
        mon.check("agreement", mat == [str(D[n - 1 - i]) for i in range(n)], "maturity {}", mat)
        # stored and brought back
        y = mon.call("stored", pickle.loads, mon.call("stored", pickle.dumps, r))
        mon.check("stored", type(y) is type(r) and snap.same(before, snap.result(y)), "pickled {}: {}", kind, snap.diff(before, snap.result(y)))
        mon.check("stored", str(y) == str(r) and type(y.tri) is type(r.tri), "pickled {} prints differently or holds a {}", kind, type(y.tri).__name__)
        p, q = snap.snap(mon.call("latest", lambda: r.tri.latest)), snap.snap(mon.call("stored", lambda: y.tri.latest))
        mon.check("stored", snap.same(p, q), "latest of the pickled {}'s triangle: {}", kind, snap.diff(p, q))
        if kind in ("mack", "boot"):
            g, h = mon.call("get_quantiles", r.get_quantiles, [.3, .8]), mon.call("stored", y.get_quantiles, [.3, .8])
            mon.check("stored", snap.same(snap.snap(g), snap.snap(h), 1e-12), "quantiles of the pickled {}", kind)
    for (w, name), L in det.items():
        for kind, d in L[1:]:
            for a, b, what in zip(L[0][1], d, ["factors", "cumulative factors", "latest", "projection"] if len(d) > 1 else ["latest"]):
                same(mon, "agreement", a, b, 1e-9, what="{} of {} and {} on {}".format(what, L[0][0], kind, name))
