"""C37: the representation of numbers in the caller's data makes no difference."""
from decimal import Decimal
import numpy as np
import pandas as pd
import trikit
from trikit.triangle import IncrTriangle, CumTriangle
from lib import gen, work, snap, asks

RULE = ("Random histories (complete and ragged, including zero / negative first periods) held in plain integers and floats "
        "and again in another representation: narrow, unsigned, nullable, object or decimal amounts, float / nullable / "
        "narrow / object labels, named or multi-level indices, read-only or subclassed frames, in tabular and triangle "
        "shape, incremental and cumulative; cells and, for complete histories, 4-6 random answers compared; "
        "non-trivial: at least two origins and periods.")
MUST = ["cells", "answer", "frame"]
ASSUMPTIONS = ["labels are whole numbers, amounts numbers or missing"]

AMOUNT = ["int32", "Int64", "Float64", "Int32", "object", "decimal", "float32", "npobject", "uint32", "plain"]
LABEL = ["float", "Int64", "int16", "object", "int32", "uint32", "plain", "Float64", "mixed"]
INDEX = ["plain", "named-origin", "named-dev", "named-value", "multi", "set-origin", "float", "datetime"]
FRAME = ["plain", "readonly", "subclass", "fortran", "wide"]


def cases(rng, tier):
    k = 110 if tier == "quick" else 1800
    out = []
    for i in range(k):
        if i % 3 == 2:
            c = gen.ragged(rng, lo=2, hi=7, shape=gen.pick(rng, ["tri", "holes", "rect", "sparse", "firstgap"]))
            c["asks"] = []
        else:
            c = gen.history(rng, n=gen.pick(rng, [4, 5, 6]), style=gen.pick(rng, ["integer", "integer", "smooth", "ties"]), scale=float(gen.pick(rng, [1., 1., 1e7, 1e-5])))
            c["asks"] = [asks.rand_ask(rng, c["n"], boot=True) for _ in range(gen.ri(rng, 4, 6))]
        c["pres"] = dict(gen.presentation(rng), index="range", extra=[], split=0., ints=False)
        c["round"] = bool(rng.rand() < .6 and np.nanmax(np.abs(gen.toarr(c["cells"]))) > 100)
        c["amount"], c["label"], c["index"], c["frame"] = gen.pick(rng, AMOUNT), gen.pick(rng, LABEL), gen.pick(rng, INDEX), gen.pick(rng, FRAME)
        c["shape"], c["fmt"], c["tri"] = gen.pick(rng, ["tabular", "tabular", "triangle"]), gen.pick(rng, ["incr", "cum"]), gen.pick(rng, ["cum", "incr"])
        c["direct"] = bool(rng.rand() < .25)
        out.append(c)
    return out


def nontrivial(c):
    return len(c["origins"]) >= 2 and len(c["devs"]) >= 2


class Frame(pd.DataFrame):
    @property
    def _constructor(self):
        return Frame


def whole(v):
    v = np.asarray(v, float)
    v = v[~np.isnan(v)]
    return bool((v == np.round(v)).all()) and bool((np.abs(v) < 2 ** 30).all())


def amounts(s, how):
    v = s.astype(float)
    if how in ("int32", "Int64", "Int32", "uint32") and not whole(v):
        return v
    if how == "int32" or how == "uint32":
        if v.isna().any() or (how == "uint32" and (v < 0).any()):
            return v.astype("Int64")
        return v.astype(how)
    if how in ("Int64", "Int32", "Float64"):
        return v.astype(how)
    if how == "float32":
        return v.astype("float32") if (v.isna() | (v.astype("float32").astype(float) == v)).all() and whole(v) and v.abs().max() < 2 ** 20 else v
    if how == "object":
        return pd.Series([None if np.isnan(x) else (int(x) if x == int(x) else float(x)) for x in v], index=s.index, dtype=object)
    if how == "npobject":
        return pd.Series([np.float64(x) for x in v], index=s.index, dtype=object)
    if how == "decimal":
        return pd.Series([None if np.isnan(x) else Decimal(repr(float(x))) for x in v], index=s.index, dtype=object)
    return v


def lab(v, how):
    v = np.asarray(v)
    if how in ("float", "mixed"):
        return v.astype(float)
    if how == "int16":
        return v.astype("int16") if np.abs(v).max() < 2 ** 15 else v
    if how in ("int32", "uint32"):
        return v.astype(how) if np.abs(v).max() < 2 ** 31 else v
    if how in ("Int64", "Float64"):
        return pd.array(v, dtype=how)
    if how == "object":
        return v.astype(object)
    return v


def norm(x):
    """Snapshot without the types of labels and numbers, and without printed text."""
    if isinstance(x, np.ndarray):
        return [norm(v) for v in x.ravel().tolist()]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float, np.generic)):
        return float(x)
    if isinstance(x, str):
        if "\n" in x:
            return "text"
        try:
            return float(x)
        except ValueError:
            return "type" if x in ("int64", "int32", "int16", "uint32", "float64", "Int64", "Float64", "object", "int", "float", "str", "f", "g", "v") else x
    if isinstance(x, tuple) and x[:1] == ("~",):
        return x
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "v" and x[1] in ("int", "float"):
            return float(x[2])
        if len(x) == 3 and x[0] == "g":
            return float(x[2])
        if len(x) == 2 and x[0] == "f":
            return float(x[1])
        if len(x) == 4 and x[0] == "a":
            return ["a", list(x[2]), norm(x[3])]
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {str(norm(k)): norm(v) for k, v in x.items()}
    return x


def run(c, mon):
    A = gen.toarr(c["cells"])
    if c["round"]:
        A = np.round(A)
        if c["asks"]:
            A[:, 0] = np.maximum(A[:, 0], 1)
    c = dict(c, cells=gen.tolist(A))
    pres = c["pres"]
    cum = c["fmt"] == "cum"
    M = gen.gcum(A) if cum else A
    o, d, v = pres["fields"]
    r = np.random.RandomState(pres["seed"])
    if c["shape"] == "tabular":
        plain = gen.records(c, pres, amounts=M)
        kw = dict(origin=o, dev=d, value=v)
    else:
        plain = pd.DataFrame(M, index=c["origins"], columns=c["devs"])
        kw = {}
    other = plain.copy()
    if c["shape"] == "tabular":
        other[v] = amounts(other[v], c["amount"])
        other[o] = lab(other[o].values, c["label"])
        other[d] = lab(other[d].values, c["label"] if c["label"] != "mixed" else "Int64")
        if c["frame"] == "wide":
            other["note"], other["when"], other["x"] = "a", pd.Timestamp("2020-01-01"), None
        ix = c["index"]
        if ix.startswith("named-"):
            other.index.name = {"origin": o, "dev": d, "value": v}[ix[6:]]
        elif ix == "multi":
            other.index = pd.MultiIndex.from_arrays([other[o].astype(float), np.arange(len(other))], names=[o, "k"])
        elif ix == "set-origin":
            other = other.set_index(o, drop=False)
        elif ix == "float":
            other.index = np.arange(len(other)) / 2.
        elif ix == "datetime":
            other.index = pd.date_range("2020-01-01", periods=len(other))
    else:
        other = pd.DataFrame({k: amounts(other[k], c["amount"]) for k in other.columns})
        how = c["label"] if c["label"] not in ("Int64", "Float64") else "float"
        other.index, other.columns = pd.Index(lab(c["origins"], how)), pd.Index(lab(c["devs"], how))
        if c["index"] in ("named-origin", "set-origin"):
            other.index.name, other.columns.name = "origin", "dev"
        elif c["index"] == "named-value":
            other.index.name, other.columns.name = "value", "variable"
    if c["frame"] == "subclass":
        other = Frame(other)
    elif c["frame"] == "fortran":
        other = other.copy().iloc[:, ::-1].iloc[:, ::-1]
    if c["frame"] == "readonly":
        for k in other.columns:
            a = other[k].values
            if isinstance(a, np.ndarray):
                try:
                    a.flags.writeable = False
                except ValueError:
                    pass
    before = snap.snap(other)
    mon.seen("{}:{}".format(c["amount"], c["shape"]))
    mon.seen("label:" + c["label"])
    if c["direct"] and c["shape"] == "tabular" and not cum:
        make = IncrTriangle if c["tri"] == "incr" else CumTriangle
        t, u = mon.call("construct", make, plain, **kw), mon.call("construct", make, other, **kw)
    else:
        k = dict(kw, tri_type=c["tri"], data_format=c["fmt"], data_shape=c["shape"])
        t, u = mon.call("totri", trikit.totri, plain, **k), mon.call("totri", trikit.totri, other, **k)
    mon.check("frame", snap.same(before, snap.snap(other)), "caller's data changed: {}", snap.diff(before, snap.snap(other)))
    mon.check("cells", type(t) is type(u), "{} / {}", type(t), type(u))
    mon.check("cells", [float(x) for x in u.index] == [float(x) for x in t.index] and [float(x) for x in u.columns] == [float(x) for x in t.columns], "labels {} / {}", list(u.index), list(t.index))
    mon.check("cells", all(str(x) == "float64" for x in u.dtypes), "cell types {}", [str(x) for x in u.dtypes])
    x, y = np.array(t.values, float), np.array(u.values, float)
    mon.check("cells", np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True), "cells {} / {}", x.tolist(), y.tolist())
    if not c["asks"]:
        z = mon.call("to_tbl", u.to_tbl)
        mon.check("answer", np.allclose(norm_tbl(t.to_tbl()), norm_tbl(z), rtol=1e-12), "records differ")
        return
    if c["tri"] == "incr":
        t, u = mon.call("to_cum", t.to_cum), mon.call("to_cum", u.to_cum)
    for a in c["asks"]:
        p, q = norm(asks.ask(t, a, mon)), norm(asks.ask(u, a, mon))
        mon.check("answer", snap.same(p, q, 1e-9), "{}: {}", a, snap.diff(p, q, tol=1e-9))


def norm_tbl(x):
    return x.sort_values(list(x.columns[:2])).values.astype(float)
