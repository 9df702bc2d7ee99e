"""C10: inputs supplied by the caller are never modified, and neither are earlier results."""
import numpy as np
import pandas as pd
import trikit
from lib import gen, work, snap, asks

RULE = ("Random sessions of 4-9 calls (construction from records or triangle-shaped frames, estimators with list / array "
        "/ Series selections and quantiles, conversions, quantiles, plots with styling dictionaries); every object the "
        "caller holds - inputs, arguments, triangles, all earlier results - is snapshot before and compared after each "
        "call; non-trivial: at least four calls.")
MUST = ["input", "argument", "triangle", "result"]

OPS = ["totri", "totri", "base", "base", "mack", "boot", "conv", "prop", "prop", "rq", "rq", "diag"]
PLOTS = ["p_tri", "p_trif", "p_base", "p_mack", "p_diag", "p_boot", "p_hist"]


def cases(rng, tier):
    k = 64 if tier == "quick" else 1200
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=5, hi=7, style=gen.pick(rng, ["smooth", "integer", "neg", "recov", "shorttail", "wild"]), warm=False)
        c["n"] = len(c["origins"])
        if rng.rand() < .4:
            a, b = gen.ri(rng, 0, c["n"] - 3), 1
            c["cells"][a][b] = None if rng.rand() < .5 else c["cells"][a][b]
        if rng.rand() < .2:
            c["neg_first"] = True
        c["ops"] = [[gen.pick(rng, OPS), gen.ri(rng, 0, 10 ** 6)] for _ in range(gen.ri(rng, 5, 9))]
        if i % 2 == 0:
            c["ops"].insert(gen.ri(rng, 2, len(c["ops"])), [PLOTS[(i // 2) % len(PLOTS)], gen.ri(rng, 0, 10 ** 6)])
        out.append(c)
    return out


def nontrivial(c):
    return len(c["ops"]) >= 4


def run(c, mon):
    n = c["n"]
    held = {}         # name -> (object, how to snapshot)
    snaps = {}

    def hold(name, obj, how=snap.snap):
        held[name] = (obj, how)
        snaps[name] = how(obj)

    def verify(op):
        for name, (obj, how) in held.items():
            now = how(obj)
            kind = name.split("#")[0]
            mon.check(kind, snap.same(snaps[name], now), "{} altered by {}: {}", name, op, snap.diff(snaps[name], now))

    def trisnap(t):
        out = [snap.snap(t)]
        if type(t).__name__ == "CumTriangle":
            out += [snap.snap(t.a2a), snap.snap(t.a2aind)]
        return out

    o, d, v = c["pres"]["fields"]
    df = gen.records(c, c["pres"])
    if c.get("neg_first"):
        first = df[d] == min(c["devs"])
        df.loc[first & (df[o] == c["origins"][1]), v] = -3. if df[v].dtype.kind == "f" else -3
    hold("input#records", df)
    kw = dict(origin=o, dev=d, value=v)
    t = mon.call("totri", trikit.totri, df, **kw)
    verify("totri")
    A = gen.toarr(c["cells"])
    wide = pd.DataFrame(gen.gcum(A), index=c["origins"], columns=c["devs"])
    hold("input#wide", wide)
    hold("triangle#main", t, trisnap)
    results = []

    def addres(r):
        name = "result#{}".format(len(results))
        results.append(r)
        hold(name, r, lambda x: [snap.result(x)])

    addres(mon.call("base_cl", t.base_cl))
    for k, (op, s) in enumerate(c["ops"]):
        r = np.random.RandomState(s)
        tag = "{}@{}".format(op, k)
        if op == "totri":
            tt = gen.pick(r, ["incr", "cum"])
            src = gen.pick(r, ["rec", "reccum", "wide", "widecum"])
            if src.startswith("rec"):
                x = mon.call("totri", trikit.totri, df, tri_type=tt, data_format="cum" if src == "reccum" else "incr", **kw)
            else:
                x = mon.call("totri", trikit.totri, wide, tri_type=tt, data_shape="triangle", data_format="cum" if src == "widecum" else "incr")
            hold("triangle#{}".format(tag), x, snap.snap)
        elif op == "base":
            f = [gen.factor(r, 1., 2.) for _ in range(n - 1)]
            form = gen.pick(r, ["list", "tuple", "array", "array", "series", "pseries", "name"])
            if r.rand() < .3:               # a factor left open, nil, or a salvage
                f[gen.ri(r, 0, n - 2)] = float(gen.pick(r, [np.nan, np.nan, 0., -.5]))
            sel = {"list": f, "tuple": tuple(f), "array": np.array(f), "series": pd.Series(f, index=list(t.columns[:-1])),
                   "pseries": pd.Series(f, name="mine"), "name": gen.pick(r, asks.SELS)}[form]
            hold("argument#sel{}".format(k), sel)
            addres(mon.call("base_cl", t.base_cl, sel=sel, tail=float(gen.pick(r, [1., 1.05]))))
        elif op in ("mack", "boot"):
            q = gen.pick(r, [[.95, .5], np.array([.9, .1]), (.75, .75), pd.Series([.3, .2]), [.5]])
            hold("argument#q{}".format(k), q)
            if op == "mack":
                addres(mon.call("mack_cl", t.mack_cl, alpha=gen.ri(r, 0, 2), dist=gen.pick(r, ["norm", "lognorm"]), q=q, two_sided=bool(r.rand() < .5)))
            else:
                addres(mon.call("boot_cl", t.boot_cl, sims=5, q=q, parametric=bool(r.rand() < .4), two_sided=bool(r.rand() < .5), random_state=gen.ri(r, 0, 99)))
        elif op == "conv":
            i2 = mon.call("to_incr", t.to_incr)
            hold("triangle#i{}".format(k), i2, snap.snap)
            hold("triangle#c{}".format(k), mon.call("to_cum", i2.to_cum), snap.snap)
            hold("argument#tbl{}".format(k), mon.call("to_tbl", t.to_tbl))
        elif op == "prop":
            p = gen.pick(r, asks.PROPS)
            mon.call(p, lambda: getattr(t, p))
            mon.call("a2a_avgs", t.a2a_avgs)
        elif op == "diag":
            mon.call("diagonal", t.diagonal, -1)
            str(t), repr(t), [str(x) for x in results]
        elif op == "rq":
            for x in results[-3:]:
                nm = type(x).__name__
                q = gen.pick(r, [[.95, .5], np.array([.9, .1]), pd.Series([.3, .2]), .5])
                hold("argument#rq{}".format(k), q)
                if nm.startswith("Mack"):
                    mon.call("get_quantiles", x.get_quantiles, q)
                    mon.call("devp_corr_test", x.devp_corr_test)
                    mon.call("cy_effects_test", x.cy_effects_test)
                elif nm.startswith("Boot"):
                    mon.call("get_quantiles", x.get_quantiles, q, lb=gen.pick(r, [None, 0]))
                    mon.call("origin_dist", lambda: x.origin_dist)
                    mon.call("residuals_detail", lambda: x.residuals_detail)
        elif op == "p_tri":
            mon.call("plot", t.plot)
        elif op == "p_trif":
            mon.call("plot", t.plot, display="faceted")
        elif op == "p_base":
            hk = dict(marker=["s", "o"], markersize=[4, 5])
            hold("argument#hue{}".format(k), hk)
            b = mon.call("base_cl", t.base_cl, tail=1.01)
            addres(b)
            mon.call("plot", b.plot, hue_kws=hk, alpha=.7)
        elif op in ("p_mack", "p_diag"):
            m = mon.call("mack_cl", t.mack_cl)
            addres(m)
            if op == "p_mack":
                q = [.9, .5]
                hold("argument#pq{}".format(k), q)
                mon.call("plot", m.plot, q=q)
            else:
                mon.call("diagnostics", m.diagnostics)
        elif op in ("p_boot", "p_hist"):
            b = mon.call("boot_cl", t.boot_cl, sims=25, random_state=3)
            addres(b)
            if op == "p_boot":
                hk = dict(linewidth=[1, 1, 2, 2])
                hold("argument#hue{}".format(k), hk)
                mon.call("plot", b.plot, hue_kws=hk)
            else:
                mon.call("hist", b.hist, color="#AACCEE", bins=10)
        mon.seen("op:" + op)
        verify(tag)
        import sys
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
