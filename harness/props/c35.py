"""C35: invalid requests are refused and leave everything as it was."""
import numpy as np
import pandas as pd
import trikit
from trikit.triangle import IncrTriangle, CumTriangle
from lib import gen, work, snap, asks

RULE = ("Random triangles with prior requests and exclusions; 6-10 invalid requests each (wrong containers, missing "
        "fields, unknown formats / shapes / types / averages / distributions / rules, misfitting factor sequences, exclusions of link ratios that do not exist, offsets "
        "and probabilities out of range), interleaved with valid ones whose answers are compared with those of an "
        "untouched twin; non-trivial: at least four invalid requests.")
MUST = ["refused", "unaffected", "source", "twin"]
ASSUMPTIONS = ["a two-dimensional or scalar factor selection is not decided", "whether names may differ in case or surrounding spaces is not decided"]

WORDS = ["", " ", "nope", "all-weightd", "weighted", "ALL-WEIGHTED", "simple-0", "weighted--1", "medial-99", "all", "0", "total", "latest", "geometric-100"]
KINDS = ["container", "field", "shape", "format", "tritype", "average", "length", "dist", "procdist", "interp", "diagonal", "q", "gq", "glm", "exclusion", "dataset", "datatype", "text", "undefined"]


def cases(rng, tier):
    k = 120 if tier == "quick" else 2000
    out = []
    for i in range(k):
        c = work.est_case(rng, n=gen.pick(rng, [4, 5, 6]), style=gen.pick(rng, ["smooth", "wild", "integer"]))
        c["excl"] = [[0, 0]] if rng.rand() < .3 else []
        c["bad"] = [[gen.pick(rng, KINDS), gen.ri(rng, 0, 10 ** 6)] for _ in range(gen.ri(rng, 6, 10))]
        c["asks"] = [asks.rand_ask(rng, c["n"], boot=k % 3 == 0) for _ in c["bad"]]
        out.append(c)
    return out


def nontrivial(c):
    return len(c["bad"]) >= 4


def word(r, valid=()):
    """A name that is none of the valid ones."""
    while True:
        w = gen.pick(r, WORDS) if r.rand() < .6 else "".join(chr(gen.ri(r, 97, 122)) for _ in range(gen.ri(r, 1, 9)))
        if w not in valid:
            return w


def near(r, valid, more=()):
    """A name that is none of the valid ones, often nearly one."""
    if r.rand() < .5:
        return word(r, valid)
    v = gen.pick(r, valid)
    return gen.pick(r, [w for w in [v + "s", v[:-1], v[:3], "x" + v, v + "-" + v, v + "2", v[1:]] + list(more) if w not in valid])


def badq(r):
    x = float(gen.pick(r, [1.0001, 1.5, 75., -.01, -1e-9, 1 + 1e-9, 100., float("inf"), -float("inf"), float("nan"), -.5, 2.]))
    form = gen.pick(r, ["scalar", "list", "tuple", "array", "middle"])
    if form == "scalar":
        return x
    good = [.5, .9][: gen.ri(r, 1, 2)]
    q = [good[0], x] + good[1:] if form == "middle" else ([x] + good if r.rand() < .5 else good + [x])
    return np.array(q) if form == "array" else (tuple(q) if form == "tuple" else q)


def invalid(kind, seed, c, t, df, kw, held):
    """(expected exception, thunk)"""
    r = np.random.RandomState(seed)
    n = c["n"]
    fmt = lambda: gen.pick(r, ["incr", "cum"])
    if kind == "container":
        x = gen.pick(r, [None, [1, 2, 3], {"origin": [1]}, 5, "df", df[kw["value"]], np.ones((3, 3)), df.values.tolist()])
        route = gen.ri(r, 0, 3)
        if route == 0:
            return TypeError, lambda: IncrTriangle(x, **kw)
        if route == 1:
            return Exception, lambda: CumTriangle(x, **kw)
        return Exception, lambda: trikit.totri(x, tri_type=fmt(), data_format=fmt(), data_shape=gen.pick(r, ["tabular", "triangle"]) if not isinstance(x, pd.Series) else "tabular", **kw)
    if kind == "field":
        a = gen.pick(r, ["origin", "dev", "value"])
        route = gen.ri(r, 0, 3)
        name = word(r, list(df.columns))
        if route == 0:
            return AttributeError, lambda: IncrTriangle(df, **dict(kw, **{a: name}))
        if route == 1:
            return Exception, lambda: CumTriangle(df, **dict(kw, **{a: name}))
        if route == 2:
            less = df.drop(columns=[kw[a]])
            return Exception, lambda: trikit.totri(less, tri_type=fmt(), data_format=fmt(), **kw)
        return Exception, lambda: trikit.totri(df, tri_type=fmt(), data_format=fmt(), **dict(kw, **{a: name}))
    if kind == "shape":
        w = word(r, ["tabular", "triangle"])
        return NameError, lambda: trikit.totri(df, data_shape=w, tri_type=fmt(), **kw)
    if kind == "format":
        w = gen.pick(r, ["", "x", "paid", "nope", " ", "tabular", "-incr", "1", "_cum", "annual"])
        if r.rand() < .5:
            return NameError, lambda: trikit.totri(df, data_format=w, tri_type=fmt(), **kw)
        return NameError, lambda: trikit.totri(pd.DataFrame(t.copy()), data_format=w, data_shape="triangle", tri_type=fmt())
    if kind == "tritype":
        w = gen.pick(r, ["", "x", "paid", "nope", "triangle", "-incr", "1", "_cum", "annual"])
        return Exception, lambda: trikit.totri(df, tri_type=w, data_format=fmt(), **kw)
    if kind == "average":
        valid = list(t.a2a_avgs().index)
        w = word(r, valid)
        return KeyError, lambda: t.base_cl(sel=w, tail=float(gen.pick(r, [1., 1.1])))
    if kind == "length":
        m = gen.pick(r, [0, 1, n - 2, n, n + 1, 2 * n])
        bad = [1. + .1 * k for k in range(m)]
        form = gen.pick(r, ["list", "tuple", "array", "series"])
        x = {"list": bad, "tuple": tuple(bad), "array": np.array(bad, float), "series": pd.Series(bad, dtype=float)}[form]
        return ValueError, lambda: t.base_cl(sel=x)
    if kind == "dist":
        w = near(r, ["norm", "lognorm"], ["logistic", "log", "normal", "lognormal"])
        return ValueError, lambda: t.mack_cl(dist=w, alpha=gen.ri(r, 0, 2))
    if kind == "procdist":
        w = near(r, ["gamma"], ["gam", "gamma2", "gammas"])
        return ValueError, lambda: t.boot_cl(procdist=w, sims=gen.ri(r, 1, 4), random_state=1)
    if kind == "interp":
        w = near(r, ["linear", "lower", "higher", "midpoint", "nearest", "weibull", "hazen"])
        if r.rand() < .5:
            return ValueError, lambda: t.boot_cl(interpolation=w, sims=3, random_state=1)
        return ValueError, lambda: held["boot"].get_quantiles(.5, interpolation=w)
    if kind == "diagonal":
        return ValueError, lambda: t.diagonal(int(gen.pick(r, [n, n + 1, -n, -n - 1, 3 * n, -100, 10 ** 6])))
    if kind == "q":
        q = badq(r)
        if r.rand() < .5:
            return ValueError, lambda: t.mack_cl(q=q, two_sided=bool(r.rand() < .3))
        return ValueError, lambda: t.boot_cl(q=q, sims=3, random_state=1, two_sided=bool(r.rand() < .3))
    if kind == "gq":
        q = badq(r)
        return ValueError, lambda: held[gen.pick(r, ["mack", "boot"])].get_quantiles(q)
    if kind == "glm":
        return NotImplementedError, lambda: t.glm()
    if kind == "exclusion":
        o, e = c["origins"], c["devs"]
        i = gen.ri(r, 0, n - 2)
        j = gen.ri(r, 0, n - 2 - i)
        spec = gen.pick(r, [(o[-1], e[0], 0), (o[0], e[-1], 0), (o[0] - 1, e[j], 0), (o[i], e[-1] + 7, 0), (str(o[i]), e[j], 0), (o[i], str(e[j]), 0),
                            (e[-1] + 7, o[i] + 10 ** 7, 0), (o[i], e[j], 2), (o[i], e[j], -1), (o[i], e[j], .5), (o[i], e[j], None), (o[i], e[j], float("nan")),
                            (o[i], e[j], "x"), (o[i], e[j]), (o[i], e[j], 0, 0), (o[-1] + 1, e[0], 1)])
        return (KeyError, ValueError, TypeError), lambda: setattr(t, "a2aind", spec)
    if kind == "dataset":
        w = word(r, trikit.get_datasets())
        return KeyError, lambda: trikit.load(w)
    if kind == "datatype":
        w = gen.pick(r, ["x", "paid", "nope", "triangle", "1", "annual", "-cum"])
        return ValueError, lambda: trikit.load(gen.pick(r, list(trikit.get_datasets())), tri_type=w)
    if kind == "undefined":
        # a triangle of its own, one of whose periods has no development factor
        x = work.build(dict(c, warm=[]), None)
        if r.rand() < .5:
            x.iloc[0, n - 2:] = 0.              # 0 / 0 is the last period's only ratio
            x = trikit.totri(pd.DataFrame(x.copy()), data_format="cum", data_shape="triangle", tri_type="cum")
        else:
            j = gen.ri(r, 0, n - 2)
            work.exclude(x, c, [[i, j] for i in range(n - 1 - j)])
        return ValueError, lambda: x.boot_cl(sims=gen.ri(r, 1, 9), random_state=1, parametric=bool(r.rand() < .5), two_sided=bool(r.rand() < .5))
    # factors that are no numbers
    return (ValueError, TypeError), lambda: t.base_cl(sel=["a"] * (n - 1))


def run(c, mon):
    pres, route = c["pres"], c["route"]
    t, u = work.build(c, mon), work.build(c, mon)
    for x in (t, u):
        if c["excl"]:
            work.exclude(x, c, c["excl"])
    df = gen.records(c, pres)
    o, d, v = pres["fields"]
    kw = dict(origin=o, dev=d, value=v)
    df0 = snap.snap(df)
    held = {"mack": mon.call("mack_cl", t.mack_cl), "boot": mon.call("boot_cl", t.boot_cl, sims=5, random_state=3)}
    h0 = {k: snap.result(x) for k, x in held.items()}
    s0 = snap.snap(t)
    for (kind, seed), a in zip(c["bad"], c["asks"]):
        exc, f = invalid(kind, seed, c, t, df, kw, held)
        mon.raises("refused", exc, f)
        mon.seen("refused:" + kind)
        mon.check("unaffected", snap.same(s0, snap.snap(t)), "refused {}: triangle changed: {}", kind, snap.diff(s0, snap.snap(t)))
        mon.check("source", snap.same(df0, snap.snap(df)), "refused {}: caller's data changed: {}", kind, snap.diff(df0, snap.snap(df)))
        x, y = asks.ask(t, a, mon), asks.ask(u, a, mon)
        mon.check("twin", snap.same(x, y, 1e-12), "after a refused {}, {} answers otherwise than an untouched twin: {}", kind, a, snap.diff(x, y, tol=1e-12))
    for k, x in held.items():
        mon.check("unaffected", snap.same(h0[k], snap.result(x)), "{} result changed: {}", k, snap.diff(h0[k], snap.result(x)))
