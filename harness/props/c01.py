"""C01: incremental triangles hold exactly the recorded amounts."""
import numpy as np
import trikit
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Random loss histories (run-off triangles with and without holes, rectangles, sparse books, zero or "
        "negative first amounts, 1-13 origins, all label styles) presented as shuffled / split / extra-column / "
        "missing-amount records under various field names and indexes; non-trivial: at least two cells.")
MUST = ["type", "labels", "cells"]
ASSUMPTIONS = ["origin and development labels are integers, as required by to_tbl and the documentation"]


def cases(rng, tier):
    k = 700 if tier == "quick" else 12000
    out = []
    for i in range(k):
        c = gen.ragged(rng, hi=5 if i < k // 3 else (9 if i % 7 else 13))
        c["pres"] = gen.presentation(rng)
        c["twice"] = bool(rng.rand() < .3)
        out.append(c)
    return out


def nontrivial(c):
    return sum(v is not None for r in c["cells"] for v in r) >= 2


def verify(c, mon, tri, kind=""):
    A = gen.toarr(c["cells"])
    mon.check("type", type(tri).__name__ == "IncrTriangle", "got {}", type(tri).__name__)
    labels(mon, "labels", tri.index, sorted(c["origins"]), "origins")
    labels(mon, "labels", tri.columns, sorted(c["devs"]), "development periods")
    same(mon, "cells", tri.values, oracle.incr_expected(A), 1e-14, np.nansum(np.abs(A), axis=1)[:, None], what="cells" + kind)


def run(c, mon):
    pres = c["pres"]
    o, d, v = pres["fields"]
    df = gen.records(c, pres)
    mon.seen("records", len(df))
    if c["twice"]:
        # an unrelated triangle built beforehand from the same frame
        mon.call("totri", trikit.totri, df, tri_type="cum", origin=o, dev=d, value=v)
    args = {} if [o, d, v] == ["origin", "dev", "value"] else dict(origin=o, dev=d, value=v)
    tri = mon.call("totri", trikit.totri, df, tri_type="incr", **args)
    verify(c, mon, tri)
