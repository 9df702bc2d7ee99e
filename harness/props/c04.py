"""C04: conversions are inverse and conserve amounts."""
import numpy as np
import pandas as pd
import trikit
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Random histories with positive first amounts (complete triangles and triangles with holes), any labels and "
        "field names, converted incr->cum->incr, cum->incr->cum, and through tabular form, directly after "
        "construction or after other requests; non-trivial: at least two origins.")
MUST = ["roundtrip", "conserve", "table"]
ASSUMPTIONS = ["first-period amounts that are zero or negative are altered on construction (C01), so excluded as in the statement"]


def cases(rng, tier):
    k = 220 if tier == "quick" else 4000
    out = []
    for i in range(k):
        if rng.rand() < .5:
            c = gen.history(rng, lo=1 if i % 9 == 0 else 2)
            c["full"] = True
        else:
            c = gen.ragged(rng, positive_first=True, shape=gen.pick(rng, ["tri", "holes", "holes", "rect", "firstgap"]))
            c["full"] = False
        c["pres"] = gen.presentation(rng)
        c["route"] = gen.pick(rng, ["tab_incr", "tab_cum", "tri_incr", "tri_cum"])
        c["warm"] = gen.warm_ops(rng, ops=["latest", "triind", "to_tbl", "str", "rlvi", "copy", "devp", "nbr_cells", "a2a", "to_incr"] if c["full"] else ["latest", "to_tbl", "str", "rlvi", "triind"])
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 2


def table(mon, t, X, c, names, kind, sc):
    """Tabular form lists exactly the non-empty cells, ordered, under the given field names."""
    df = mon.call("to_tbl", t.to_tbl)
    cells = [(o, d, X[i, j]) for i, o in enumerate(c["origins"]) for j, d in enumerate(c["devs"]) if not np.isnan(X[i, j])]
    labels(mon, "table", df.columns, names, kind + " columns")
    labels(mon, "table", df[names[0]], [r[0] for r in cells], kind + " origin column")
    labels(mon, "table", df[names[1]], [r[1] for r in cells], kind + " dev column")
    same(mon, "table", df[names[2]], [r[2] for r in cells], 1e-13, [sc[c["origins"].index(r[0])] for r in cells], what=kind + " value column")
    labels(mon, "table", df.index, range(len(cells)), kind + " index")
    full = mon.call("to_tbl", t.to_tbl, dropna=False)
    labels(mon, "table", full[names[0]], [o for o in c["origins"] for _ in c["devs"]], kind + " all origins")
    labels(mon, "table", full[names[1]], [d for _ in c["origins"] for d in c["devs"]], kind + " all devs")
    same(mon, "table", full[names[2]], X.ravel(), 1e-13, np.repeat(sc, X.shape[1]), what=kind + " all values")
    return df


def run(c, mon):
    A = gen.toarr(c["cells"])
    pres = c["pres"]
    names = pres["fields"] if c["route"].startswith("tab") else (
        ["origin", "dev", "value"])
    XI, XC = oracle.incr_expected(A), oracle.cum_expected(A)
    sc = np.nansum(np.abs(A), axis=1)
    ti = gen.build(c, mon, pres, c["route"], "incr")
    tc = gen.build(c, mon, pres, c["route"], "cum")
    if c["full"]:
        gen.warm(tc, c["warm"], mon)
    elif c["warm"]:
        gen.warm(tc, c["warm"], mon)
    # incr -> cum -> incr
    cum = mon.call("to_cum", ti.to_cum)
    mon.check("roundtrip", type(cum).__name__ == "CumTriangle", "to_cum gave {}", type(cum).__name__)
    same(mon, "roundtrip", cum.values, XC, 1e-13, sc[:, None], what="to_cum of the incremental triangle")
    labels(mon, "roundtrip", cum.index, c["origins"], "to_cum origins")
    labels(mon, "roundtrip", cum.columns, c["devs"], "to_cum devs")
    back = mon.call("to_incr", cum.to_incr)
    mon.check("roundtrip", type(back).__name__ == "IncrTriangle", "to_incr gave {}", type(back).__name__)
    # A gap filled on conversion (carried forward) shows as an explicit zero (1 for a first period), nothing else changes.
    prev = np.column_stack([np.zeros(len(XC)), pd.DataFrame(XC).ffill(axis=1).fillna(0.).values[:, :-1]])
    D = XC - prev
    firstgap = np.isnan(A[:, 0]).any()
    if not firstgap:
        filled = np.where(np.isnan(XI) & ~np.isnan(XC), 0., XI)
        same(mon, "roundtrip", back.values, filled, 1e-13, sc[:, None], what="incr -> cum -> incr")
    labels(mon, "roundtrip", back.index, c["origins"], "to_incr origins")
    labels(mon, "roundtrip", back.columns, c["devs"], "to_incr devs")
    # cum -> incr -> cum
    i2 = mon.call("to_incr", tc.to_incr)
    D0 = D.copy()
    same(mon, "roundtrip", i2.values, D0, 1e-13, sc[:, None], what="cum -> incr")
    c2 = mon.call("to_cum", i2.to_cum)
    same(mon, "roundtrip", c2.values, XC, 1e-13, sc[:, None], what="cum -> incr -> cum")
    # conservation
    lat = mon.call("latest", lambda: tc.latest_by_origin)
    for i, o in enumerate(c["origins"]):
        tot = np.nansum(i2.values[i])
        # the last non-empty cumulative amount of the origin
        last = XC[i][~np.isnan(XC[i])][-1]
        mon.check("conserve", abs(tot - last) <= 1e-12 * sc[i], "origin {}: increments add to {}, latest {}", o, tot, last)
        mon.check("conserve", abs(float(lat.loc[o]) - last) <= 1e-12 * sc[i], "origin {}: latest {} expected {}", o, lat.loc[o], last)
    # tabular form and back
    dfi = table(mon, ti, XI, c, names, "incr", sc)
    dfc = table(mon, tc, XC, c, names, "cum", sc)
    table(mon, i2, D0, c, ["origin", "dev", "value"], "to_incr", sc)
    table(mon, cum, XC, c, names, "to_cum", sc)
    kw = dict(origin=names[0], dev=names[1], value=names[2])
    r1 = mon.call("totri", trikit.totri, dfi, tri_type="incr", **kw)
    same(mon, "roundtrip", r1.values, XI, 1e-13, sc[:, None], what="incr through table")
    r2 = mon.call("totri", trikit.totri, dfc, tri_type="cum", data_format="cum", **kw)
    same(mon, "roundtrip", r2.values, XC, 1e-13, sc[:, None], what="cum through table")
    r3 = mon.call("totri", trikit.totri, dfc, tri_type="incr", data_format="cum", **kw)
    same(mon, "roundtrip", r3.values, D0, 1e-13, sc[:, None], what="cum table as incr")
