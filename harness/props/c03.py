"""C03: equivalent inputs give identical triangles."""
import numpy as np
import trikit
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Random loss histories with holes and any sign of amounts, each supplied through all four routes (tabular / "
        "triangle shaped, incremental / cumulative) under several presentations; non-trivial: at least three cells.")
MUST = ["agree", "labels"]
ASSUMPTIONS = ["labels are integers (or their decimal text for triangle-shaped headers)"]


def cases(rng, tier):
    k = 240 if tier == "quick" else 4000
    out = []
    for i in range(k):
        c = gen.ragged(rng, hi=5 if i < k // 3 else (9 if i % 7 else 13), positive_first=bool(rng.rand() < .5))
        c["press"] = [gen.presentation(rng) for _ in range(4)]
        out.append(c)
    return out


def nontrivial(c):
    return sum(v is not None for r in c["cells"] for v in r) >= 3


def run(c, mon):
    A = gen.toarr(c["cells"])
    sc = np.nansum(np.abs(A), axis=1)[:, None]
    exp = {"incr": oracle.incr_expected(A), "cum": oracle.cum_expected(A)}
    for tri_type in ("incr", "cum"):
        for route, pres in zip(("tab_incr", "tab_cum", "tri_incr", "tri_cum"), c["press"]):
            t = gen.build(c, mon, pres, route, tri_type)
            labels(mon, "labels", t.index, sorted(c["origins"]), route + " origins")
            labels(mon, "labels", t.columns, sorted(c["devs"]), route + " periods")
            mon.check("type", type(t).__name__ == ("IncrTriangle" if tri_type == "incr" else "CumTriangle"),
                      "{} gave {}", route, type(t).__name__)
            # differences of cumulative amounts may round; the sign of a first amount does not
            same(mon, "agree", t.values, exp[tri_type], 1e-13, sc, what="{} -> {}".format(route, tri_type))
