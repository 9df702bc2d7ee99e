"""C31: printed triangles and summaries show the stored numbers."""
import numpy as np
import pandas as pd
from lib import gen, work, snap, boots
from lib.cmp import labels

RULE = ("Random triangles of both kinds (4-62 origins, scales 1e-3..1e12, gaps) and results of all estimators printed by str, "
        "repr and print-like calls under random pandas display options; the text is parsed back cell by cell; non-trivial: "
        "at least five origins.")
MUST = ["triangle", "summary", "unchanged", "wide"]


def cases(rng, tier):
    k = 110 if tier == "quick" else 2000
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=9, scale=float(gen.pick(rng, [1., 1., 1e-3, .01, 1e3, 1e6, 1e9, 1e12])),
                          style=gen.pick(rng, ["smooth", "wild", "integer", "neg", "recov", "shorttail", "ties"])) if i % 6 else \
            work.est_case(rng, n=gen.pick(rng, [12, 17, 23, 26, 31, 40, 55, 62]), style="smooth", warm=False)
        c["opts"] = gen.pick(rng, [{}, {}, {"display.max_rows": 4, "display.max_columns": 3}, {"display.precision": 1}, {"display.width": 20, "display.max_colwidth": 6}])
        c["tail"], c["alpha"], c["dist"] = gen.tail(rng), gen.ri(rng, 0, 2), gen.pick(rng, ["norm", "lognorm"])
        c["q"], c["two"] = gen.pick(rng, [.95, [.75, .95], [.5], [.025, .125, .9]]), bool(rng.rand() < .4)
        c["user"] = [float(gen.pick(rng, [1., 1., .05, .3, 2., 40., 1e3])) for _ in range(c["n"] - 1)] if i % 4 == 1 else None
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def cell(v, f):
    return "nan" if np.isnan(v) else f.format(v)


def table(mon, kind, txt, rows, cols, value):
    """value(i, j): text expected, None: nothing shown."""
    L = txt.split("\n")
    mon.check(kind, len(L) == len(rows) + 1, "{} lines printed for {} rows", len(L), len(rows))
    labels(mon, kind, L[0].split(), [str(c) for c in cols], "printed header")
    for i, r in enumerate(rows):
        exp = [str(r)] + [v for v in (value(i, j) for j in range(len(cols))) if v is not None]
        got = [x.lower() if x.lower() == "nan" else x for x in L[i + 1].split()]
        mon.check(kind, got == exp, "printed row {} expected {}", got, exp)
    mon.seen("rows-printed", len(rows))


FORMAT = {"cldf": "{:.5f}", "emergence": "{:.5f}", "cv": "{:.3f}"}


def run(c, mon):
    with pd.option_context(*[x for kv in c["opts"].items() for x in kv]) if c["opts"] else pd.option_context("display.max_rows", 60):
        body(c, mon)


def body(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    for tri in (t, mon.call("to_incr", t.to_incr), gen.build(c, mon, c["pres"], "tab_incr", "incr")):
        V = np.array(tri.values, float)
        before = snap.snap(tri)
        for fn in (str, repr, lambda x: "{}".format(x)):
            table(mon, "triangle", mon.call("print", fn, tri), c["origins"], c["devs"], lambda i, j: cell(V[i, j], "{:,.0f}"))
        mon.check("unchanged", snap.same(before, snap.snap(tri)), "printing changed the triangle: {}", snap.diff(before, snap.snap(tri)))
    if n >= 10:
        mon.seen("decided:wide")
    res = [mon.call("base_cl", t.base_cl, tail=c["tail"])]
    if c["user"]:
        res.append(mon.call("base_cl", t.base_cl, sel=c["user"], tail=c["tail"]))
    if n <= 31:
        res.append(mon.call("mack_cl", t.mack_cl, alpha=c["alpha"], dist=c["dist"], q=c["q"], two_sided=c["two"]))
    if n <= 9 and n >= 4:
        res.append(mon.call("boot_cl", t.boot_cl, sims=5, random_state=3, q=c["q"], two_sided=c["two"]))
    for r in res:
        S = r.summary
        before = snap.result(r)
        def value(i, j):
            col = S.columns[j]
            v = S.iloc[i, j]
            if col == "maturity":
                return str(v) if str(v) else None
            return cell(float(v), FORMAT.get(col, "{:,.0f}"))
        for fn in (str, repr):
            table(mon, "summary", mon.call("print", fn, r), list(S.index), list(S.columns), value)
        mon.check("unchanged", snap.same(before, snap.result(r)), "printing changed the result: {}", snap.diff(before, snap.result(r)))
