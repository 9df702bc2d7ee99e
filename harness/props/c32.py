"""C32: triangles behave as DataFrames of their cells."""
import io
import pickle
import numpy as np
import pandas as pd
from lib import gen, work, snap, asks

RULE = ("Random triangles of both kinds (complete, ragged, all routes, with prior requests); 12-20 familiar DataFrame "
        "operations each (selection, arithmetic, reductions, reshaping, grouping, joins, input/output, copies that are "
        "then written to, also those of the triangle's own answers), compared with the same operation on a plain DataFrame of the cells, and a pickled copy "
        "answering like the original; non-trivial: at least two "
        "origins and periods.")
MUST = ["operation", "copy", "unaltered", "kind", "pickle"]


def _r(t, k, m):
    return t.index[k % len(t.index)] if m == 0 else t.columns[k % len(t.columns)]


# name -> operation on (frame, random integers a, b); the plain DataFrame's answer is the reference
OPS = {
    "col": lambda t, a, b: t[_r(t, a, 1)],
    "cols": lambda t, a, b: t[[_r(t, a, 1), _r(t, b, 1)]],
    "loc": lambda t, a, b: t.loc[_r(t, a, 0)],
    "locs": lambda t, a, b: t.loc[_r(t, a, 0):, :_r(t, b, 1)],
    "loccell": lambda t, a, b: t.loc[_r(t, a, 0), _r(t, b, 1)],
    "iloc": lambda t, a, b: t.iloc[a % len(t.index):, :1 + b % len(t.columns)],
    "iloccol": lambda t, a, b: t.iloc[:, b % len(t.columns)],
    "at": lambda t, a, b: [t.at[_r(t, a, 0), _r(t, b, 1)], t.iat[a % t.shape[0], b % t.shape[1]]],
    "mask": lambda t, a, b: t[t[_r(t, b, 1)] > t[_r(t, b, 1)].median()],
    "where": lambda t, a, b: t.where(t > float(np.nanmedian(t.values))),
    "head": lambda t, a, b: [t.head(1 + a % 4), t.tail(1 + b % 3)],
    "sum": lambda t, a, b: [t.sum(), t.sum(axis=1), t.sum(axis=0, skipna=False)],
    "mean": lambda t, a, b: [t.mean(), t.mean(axis=1)],
    "minmax": lambda t, a, b: [t.min(), t.max(axis=1), t.idxmax(axis=1)],
    "std": lambda t, a, b: [t.std(), t.median(), t.quantile(.3)],
    "count": lambda t, a, b: [t.count(), t.count(axis=1), t.size, t.shape, len(t), t.ndim, t.empty],
    "isnull": lambda t, a, b: [t.isnull(), t.notna().sum().sum()],
    "cumsum": lambda t, a, b: [t.cumsum(axis=1), t.diff(axis=1), t.shift(1, axis=1), t.pct_change(axis=1, fill_method=None)],
    "T": lambda t, a, b: [t.T, t.transpose().shape],
    "mul": lambda t, a, b: [t * 1.5, 2 / t, t + t, t - t.mean(), t ** 2, -t, abs(t)],
    "rowops": lambda t, a, b: [t.div(t.iloc[:, 0], axis=0), t.mul(np.arange(len(t.columns)), axis=1), t.add(1, fill_value=0)],
    "compare": lambda t, a, b: [t > 100, (t == t).all(), t.eq(t), t.equals(t), t.ge(0).any(axis=None)],
    "round": lambda t, a, b: [t.round(1), t.clip(lower=0), t.fillna(0.), t.ffill(axis=1)],
    "dropna": lambda t, a, b: [t.dropna(), t.dropna(axis=1, how="all"), t.drop(_r(t, b, 1), axis=1), t.drop(index=_r(t, a, 0))],
    "apply": lambda t, a, b: [t.apply(np.nansum, axis=0), t.apply(lambda v: v.dropna().iloc[-1] if v.notna().any() else -1., axis=1), t.map(lambda v: v + 1)],
    "agg": lambda t, a, b: [t.agg(["sum", "mean"]), t.describe()],
    "melt": lambda t, a, b: [t.melt(), t.stack(), t.unstack(), t.melt(ignore_index=False)],
    "reset": lambda t, a, b: [t.reset_index(), t.reset_index(drop=True), t.rename_axis("o").reset_index()],
    "rename": lambda t, a, b: [t.rename(columns=str), t.add_prefix("d"), t.set_axis(range(t.shape[0])), t.rename(index={_r(t, a, 0): 99999})],
    "sort": lambda t, a, b: [t.sort_index(ascending=False), t.sort_values(t.columns[0]), t.sort_index(axis=1, ascending=False), t.rank()],
    "reindex": lambda t, a, b: [t.reindex(t.index[::-1]), t.reindex(columns=list(t.columns[::-1]) + [-7])],
    "groupby": lambda t, a, b: [t.groupby(lambda o: o % 2).sum(), t.groupby(t.index).first()],
    "assign": lambda t, a, b: [t.assign(extra=1.), t.join(t.add_suffix("x")), pd.concat([t, t]), pd.concat([t, t], axis=1)],
    "merge": lambda t, a, b: t.reset_index().merge(t.reset_index(), on="index"),
    "io": lambda t, a, b: [t.to_csv(), t.to_dict(), t.to_json(), t.to_numpy(), t.to_records(), t.to_string(), t.to_html()],
    "values": lambda t, a, b: [t.values, np.asarray(t), np.log(t.abs() + 1), np.nansum(t), np.where(np.isnan(t), 0, t)],
    "iter": lambda t, a, b: [list(t), list(t.items()), [tuple(x) for x in t.itertuples()], [x for x in t.iterrows()], _r(t, b, 1) in t, t.keys()],
    "dtypes": lambda t, a, b: [[str(x) for x in t.dtypes], t.index, t.columns, t.axes, t.astype("float32"), t.select_dtypes("number")],
    "dot": lambda t, a, b: t.fillna(0).dot(np.ones(t.shape[1])),
    "query": lambda t, a, b: [t.query("index > @a0", local_dict={"a0": _r(t, a, 0)}), t.filter(items=[_r(t, b, 1)]), t.nlargest(2, t.columns[0]), t.squeeze() if min(t.shape) > 1 else 0],
    "copydeep": lambda t, a, b: [t.copy(), t.copy(deep=True)],
    "frame": lambda t, a, b: pd.DataFrame(t),
    "corr": lambda t, a, b: t.corr(min_periods=2),
    "ix": lambda t, a, b: [t.first_valid_index(), t.last_valid_index(), t.xs(_r(t, a, 0)), t.get(_r(t, b, 1)), t.get("no such", 5), t.T.loc[_r(t, b, 1)]],
}


# what a triangle hands out about itself, as the user's own copy
OWN = {
    "devp": lambda t: t.devp, "origins": lambda t: t.origins, "maturity": lambda t: t.maturity,
    "latest_by_origin": lambda t: t.latest_by_origin, "latest_by_devp": lambda t: t.latest_by_devp,
    "to_tbl": lambda t: t.to_tbl(), "diagonal": lambda t: t.diagonal(), "a2a": lambda t: t.a2a,
    "a2a_avgs": lambda t: t.a2a_avgs(), "to_incr": lambda t: t.to_incr(), "to_cum": lambda t: t.to_cum(),
}


def own(t, name, square):
    if name in ("a2a", "a2a_avgs", "to_incr") and not hasattr(t, "to_incr") or name == "to_cum" and hasattr(t, "to_incr"):
        return False
    return square or name not in ("diagonal", "a2a", "a2a_avgs", "to_incr", "to_cum")


def deface(x, a, b):
    """Write all over a Series or DataFrame."""
    if x.ndim == 1:
        if len(x):
            x.iloc[a % len(x)] = -12345
            x.iloc[:] = x.iloc[b % len(x)]
    else:
        x.isetitem(b % x.shape[1], -12345.)
        if len(x):
            x.iloc[a % len(x), :] = -777
        x["new"] = 1.
    x.index = ["w{}".format(k) for k in range(len(x))]
    x.name = "defaced"


def cases(rng, tier):
    k = 110 if tier == "quick" else 1600
    names = sorted(OPS)
    out = []
    for i in range(k):
        if i % 2:
            c = gen.ragged(rng, lo=2, hi=7, positive_first=True)
            c["pres"], c["route"], c["warm"] = gen.presentation(rng), "tab_incr", []
        else:
            c = work.est_case(rng, lo=3, hi=7)
        c["kind"] = gen.pick(rng, ["cum", "cum", "incr"])
        c["asks"] = [asks.rand_ask(rng, c["n"], boot=False) for _ in range(3)] if c["kind"] == "cum" and i % 2 == 0 else []
        c["excl"] = work.exclusions(rng, c["n"]) if c["asks"] and rng.rand() < .5 else []
        c["ops"] = [[gen.pick(rng, names), gen.ri(rng, 0, 50), gen.ri(rng, 0, 50)] for _ in range(gen.ri(rng, 12, 20))]
        c["own"] = [[gen.pick(rng, sorted(OWN)), gen.ri(rng, 0, 50), gen.ri(rng, 0, 50)] for _ in range(3)]
        c["tampers"] = [[gen.pick(rng, ["copy", "shallowless", "frame", "arith", "T"]), gen.ri(rng, 0, 50), gen.ri(rng, 0, 50)] for _ in range(2)]
        out.append(c)
    return out


def nontrivial(c):
    return len(c["origins"]) >= 2 and len(c["devs"]) >= 2


def strip(x):
    """Snapshot where a triangle stands for the DataFrame of its cells."""
    if isinstance(x, pd.DataFrame):
        return ("df", snap.snap(x.index), snap.snap(x.columns), [str(d) for d in x.dtypes], [snap.snap(np.asarray(x.iloc[:, k])) for k in range(x.shape[1])])
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    if isinstance(x, np.recarray):
        return [str(x.dtype), [strip(v) for v in x.tolist()]]
    if isinstance(x, dict):
        return [[strip(k), strip(v)] for k, v in x.items()]
    return snap.snap(x)


def run(c, mon):
    t = gen.build(c, mon, c["pres"], c["route"], c["kind"])
    if c["kind"] == "cum":
        gen.warm(t, c.get("warm", []), mon)
        if c["excl"]:
            work.exclude(t, c, c["excl"])
    mon.check("kind", isinstance(t, pd.DataFrame), "a triangle is {}", type(t).__mro__)
    P = pd.DataFrame(np.array(t.values, dtype=float), index=pd.Index(list(t.index)), columns=pd.Index(list(t.columns)))
    before = strip(t)
    for name, a, b in c["ops"]:
        try:
            want = strip(OPS[name](P, a, b))
        except Exception as e:
            mon.raises("operation", Exception, OPS[name], t, a, b)
            continue
        got = strip(mon.call("op:" + name, OPS[name], t, a, b))
        mon.check("operation", snap.same(want, got), "{}{}: {}", name, (a, b), snap.diff(want, got))
        mon.check("unaltered", snap.same(before, strip(t)), "{} altered the triangle: {}", name, snap.diff(before, strip(t)))
    for how, a, b in c["tampers"]:
        x = {"copy": lambda: t.copy(), "shallowless": lambda: t.copy(deep=True), "frame": lambda: pd.DataFrame(t).copy(),
             "arith": lambda: t + 0, "T": lambda: t.T.copy()}[how]()
        x.iloc[a % x.shape[0], b % x.shape[1]] = -12345.
        x["new"] = 1.
        x.index = ["w{}".format(k) for k in range(len(x))]
        mon.check("copy", snap.same(before, strip(t)), "writing to a {} of the triangle altered it: {}", how, snap.diff(before, strip(t)))
    square = "pres" in c and c["style"] in gen.CUM_STYLES and t.shape[0] == t.shape[1]
    names = [k for k in sorted(OWN) if own(t, k, square)]
    for name, a, b in c["own"]:
        if name not in names:
            continue
        said = {k: snap.snap(mon.call(k, OWN[k], t)) for k in names}
        deface(OWN[name](t), a, b)
        for k in names:
            now = snap.snap(mon.call(k, OWN[k], t))
            mon.check("copy", snap.same(said[k], now), "writing to the {} of the triangle altered its {}: {}", name, k, snap.diff(said[k], now))
        mon.check("copy", snap.same(before, strip(t)), "writing to the {} of the triangle altered it: {}", name, snap.diff(before, strip(t)))
    # stored and brought back
    if c["ops"][0][1] % 2:
        u = mon.call("pickle", pickle.loads, mon.call("pickle", pickle.dumps, t))
    else:
        buf = io.BytesIO()
        mon.call("pickle", t.to_pickle, buf)
        buf.seek(0)
        u = mon.call("pickle", pd.read_pickle, buf)
    mon.check("pickle", type(u) is type(t), "a pickled {} came back as {}", type(t).__name__, type(u).__name__)
    mon.check("pickle", snap.same(before, strip(u)), "pickled cells: {}", snap.diff(before, strip(u)))
    for a in c["asks"] + [["prop", "latest"], ["prop", "maturity"], ["tbl"]]:
        if a[0] == "prop" and not hasattr(type(t), a[1]):
            continue
        x, y = asks.ask(t, a, mon), asks.ask(u, a, mon)
        mon.check("pickle", snap.same(x, y, 1e-12), "{} of the pickled triangle: {}", a, snap.diff(x, y, tol=1e-12))
    # the triangle's own answers are still those of its cells
    tb = mon.call("to_tbl", t.to_tbl)
    mon.check("unaltered", len(tb) == int(np.isfinite(P.values).sum()), "{} records for {} cells", len(tb), int(np.isfinite(P.values).sum()))
