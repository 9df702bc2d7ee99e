"""C25: quantile arguments are validated, ordered and labelled uniformly."""
import numpy as np
import pandas as pd
from lib import gen, work
from lib.cmp import labels

RULE = ("Random and chosen probability requests (scalars of every numeric type, lists, tuples, arrays, series, repeats, "
        "unordered, three decimals, all whole percentages) given to every entry point that takes quantiles, and requests "
        "outside [0, 1]; non-trivial: every case (each makes at least ten requests).")
MUST = ["boot-summary", "boot-get", "mack-summary", "mack-get", "values", "reject", "plots"]


def cases(rng, tier):
    k = 22 if tier == "quick" else 700
    out = []
    sweep = [i / 100. for i in range(101)]
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=6, style=gen.pick(rng, ["smooth", "integer"]), warm=False)
        reqs = [[["list", "array"][i % 2], sweep[i % 5::5]]]
        for _ in range(4):
            m = gen.ri(rng, 1, 6)
            xs = [float(gen.pick(rng, [gen.ri(rng, 0, 100) / 100., gen.ri(rng, 0, 1000) / 1000., gen.ri(rng, 0, 100) / 100., 0., 1., .5, .1, .11, .12, .13, .21, .22, .23, .01, .02, .03, .9, .91, .92])) for _ in range(m)]
            if rng.rand() < .4:     # up to six decimals, close to one another or to the ends
                k = gen.ri(rng, 4, 6)
                x = float(gen.pick(rng, [rng.rand(), 10. ** -k, 1 - 10. ** -k, .975, .995]))
                xs = xs[:3] + [round(x, k), round(min(1., x + 5 * 10. ** -k), k)]
            if rng.rand() < .4:
                xs = xs + [xs[0]]
            reqs.append([gen.pick(rng, ["list", "tuple", "array", "series", "f32" if all(x * 8 == int(x * 8) for x in xs) else "list"]), xs])
        for _ in range(3):
            x = float(gen.pick(rng, [0., 1., .5, .25, .75, .9, .95, .975, .01, .11, .999]))
            reqs.append([gen.pick(rng, ["scalar", "npscalar", "zerod"] + (["int"] * 3 if x in (0., 1.) else [])), x])
        c["reqs"] = reqs
        c["bad"] = [gen.pick(rng, [-.01, 1.01, 95., -1., 2., "nan", "inf", 1.0000001, -1e-9, [.5, 1.5], [-.1, .5], [.5, -.2, 1.4], [95, 99], [.1, "nan"], [2., 3.], [1.2], [-.5, -.1]]) for _ in range(3)]
        c["dist"], c["alpha"] = gen.pick(rng, ["norm", "lognorm"]), gen.ri(rng, 0, 2)
        c["plot"] = i % 8 == 0
        out.append(c)
    return out


def nontrivial(c):
    return True


def wrap(form, q):
    if form == "scalar":
        return q
    if form == "int":
        return int(q)
    if form == "npscalar":
        return np.float64(q)
    if form == "zerod":
        return np.array(q)
    if form == "tuple":
        return tuple(q)
    if form == "array":
        return np.array(q)
    if form == "f32":
        return np.array(q, dtype=np.float32)
    if form == "series":
        return pd.Series(q, index=range(3, 3 + len(q)))
    return list(q)


def unbad(b):
    if isinstance(b, list):
        return [unbad(v) for v in b]
    return float(b) if isinstance(b, str) else b


def number(x):
    s = "{:.5f}".format(100 * x)
    return s.rstrip("0").rstrip(".")


def ordinal(x):
    s = number(x)
    if "." in s:
        return s + "th"
    v = int(s)
    if v % 100 in (11, 12, 13):
        return s + "th"
    return s + {1: "st", 2: "nd", 3: "rd"}.get(v % 10, "th")


def run(c, mon):
    t = work.build(c, mon)
    b0 = mon.call("boot_cl", t.boot_cl, sims=12, random_state=4)
    m0 = mon.call("mack_cl", t.mack_cl, alpha=c["alpha"], dist=c["dist"])
    for k, (form, q) in enumerate(c["reqs"]):
        xs = sorted(set(q)) if isinstance(q, list) else [q]
        mon.seen("requests")
        for who, fn in (("boot", lambda **a: t.boot_cl(sims=12, random_state=4, **a)), ("mack", lambda **a: t.mack_cl(alpha=c["alpha"], dist=c["dist"], **a))):
            if who == "boot" and k % 2:
                continue
            for two in (False, True):
                ys = sorted(set([(1 - x) / 2 for x in xs] + [(1 + x) / 2 for x in xs])) if two else xs
                r = mon.call(who + "_cl", fn, q=wrap(form, q), two_sided=two)
                cols = [v for v in r.summary.columns if str(v).endswith("%")]
                labels(mon, who + "-summary", cols, [number(y) + "%" for y in ys], "{} {} two_sided={} columns".format(form, q, two))
                base = list(r.summary.columns)[:-len(cols)]
                mon.check(who + "-summary", base == list((b0 if who == "boot" else m0).summary.columns)[:len(base)], "quantile columns do not come last: {}", list(r.summary.columns))
                # the column under a label holds that probability
                g = mon.call("get_quantiles", r.get_quantiles, list(ys))
                for y, col, gc in zip(ys, cols, g.columns):
                    a, z = np.array(r.summary[col].values, float)[1:], np.array(g[gc].values, float)[1:]
                    ok = ~(np.isnan(a) | np.isnan(z))
                    mon.check("values", np.allclose(a[ok], z[ok], rtol=1e-9), "column {} holds {}, get_quantiles {}", col, a, z)
        for who, r in (("boot", b0), ("mack", m0)):
            g = mon.call("get_quantiles", r.get_quantiles, wrap(form, q))
            labels(mon, who + "-get", g.columns, [ordinal(x) for x in xs], "{} {} columns".format(form, q))
            mon.check(who + "-get", len(g) == len(r.summary), "rows {}", len(g))
            v = g.values.astype(float)[1:]
            v = v[~np.isnan(v).any(axis=1)]
            mon.check("values", (np.diff(v, axis=1) >= 0).all() if v.shape[1] > 1 else True, "quantiles not ascending")
            if who == "boot":
                R = r.reserve_dist
                x = R[R["origin"] == "total"]["reserve"].values.astype(float)
                for p, col in zip(xs, g.columns):
                    e = np.quantile(x, p)
                    mon.check("values", abs(float(g.loc["total", col]) - e) <= 1e-9 * np.abs(x).max(), "column {} holds {} expected {}", col, g.loc["total", col], e)
            else:
                for p, col in zip(xs, g.columns):
                    e = r.rvs["total"].ppf(p)
                    o = float(g.loc["total", col])
                    mon.check("values", o == e or abs(o - e) <= 1e-9 * abs(e), "column {} holds {} expected {}", col, o, e)
    for b in c["bad"]:
        b = unbad(b)
        for two in (False, True):
            mon.raises("reject", ValueError, t.mack_cl, q=b, two_sided=two)
            mon.raises("reject", ValueError, t.boot_cl, sims=3, random_state=1, q=b, two_sided=two)
        mon.raises("reject", ValueError, m0.get_quantiles, b)
        mon.raises("reject", ValueError, b0.get_quantiles, b)
        mon.raises("reject", ValueError, b0.get_quantiles, b, lb=0)
        if c["plot"]:
            mon.raises("plots", ValueError, b0.plot, q=b, exhibit_path="/dev/null")
            mon.raises("plots", ValueError, m0.plot, q=b, exhibit_path="/dev/null")
