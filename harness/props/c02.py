"""C02: cumulative triangles are running totals with gaps carried forward."""
import numpy as np
import trikit
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Random loss histories as for C01 (holes in every position including whole first periods, negative and zero "
        "first amounts, rectangles, sparse books), presented as records in any order; non-trivial: at least two cells "
        "with at least two development periods.")
MUST = ["type", "labels", "cells"]
ASSUMPTIONS = ["labels are integers"]


def cases(rng, tier):
    k = 700 if tier == "quick" else 12000
    out = []
    for i in range(k):
        c = gen.ragged(rng, hi=5 if i < k // 3 else (9 if i % 7 else 13))
        c["pres"] = gen.presentation(rng)
        out.append(c)
    return out


def nontrivial(c):
    return sum(v is not None for r in c["cells"] for v in r) >= 2 and len(c["devs"]) > 1


def run(c, mon):
    pres = c["pres"]
    o, d, v = pres["fields"]
    A = gen.toarr(c["cells"])
    args = {} if [o, d, v] == ["origin", "dev", "value"] else dict(origin=o, dev=d, value=v)
    tri = mon.call("totri", trikit.totri, gen.records(c, pres), **args)
    X = oracle.cum_expected(A)
    mon.seen("gaps", int((np.isnan(A) & ~np.isnan(X)).sum()))
    mon.check("type", type(tri).__name__ == "CumTriangle", "got {}", type(tri).__name__)
    labels(mon, "labels", tri.index, sorted(c["origins"]), "origins")
    labels(mon, "labels", tri.columns, sorted(c["devs"]), "development periods")
    same(mon, "cells", tri.values, X, 1e-13, np.nansum(np.abs(A), axis=1)[:, None], what="cells")
