"""C05: triangle geometry is reported consistently with its cells."""
import numpy as np
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Complete run-off triangles, triangles with interior holes and non-square or ragged histories (incremental and cumulative), 1-13 origins, all "
        "label styles, queried directly or after other requests and in random order; every geometry attribute is "
        "compared with the non-empty cells; non-trivial: at least three origins.")
MUST = ["nbr_cells", "rlvi", "clvi", "latest", "triind", "maturity", "diagonal", "offset"]
ASSUMPTIONS = ["diagonals are judged for square triangles with every origin observed on the latest diagonal (undefined otherwise)",
               "maturity of an origin is judged when no younger origin has later periods"]


def cases(rng, tier):
    k = 300 if tier == "quick" else 5000
    out = []
    for i in range(k):
        c = gen.history(rng, lo=2)
        c["tri_type"] = gen.pick(rng, ["cum", "cum", "incr"])
        n = c["n"]
        if rng.rand() < .4 and n > 2:
            # interior holes: never on the latest diagonal, so first and last cells stay observed
            for _ in range(gen.ri(rng, 1, n)):
                a = gen.ri(rng, 0, n - 2)
                b = gen.ri(rng, 0, n - 2 - a)
                c["cells"][a][b] = None
        if i % 4 == 3:
            c.update(gen.ragged(rng, lo=1, hi=9))       # any shape
            if rng.rand() < .5 and min(len(c["origins"]), len(c["devs"])) > 2:
                staircase(rng, c)
            c["square"] = False
            c["tri_type"] = gen.pick(rng, ["cum", "incr"])
        c["pres"] = gen.presentation(rng)
        c["route"] = gen.pick(rng, ["tab_incr", "tab_cum", "tri_incr", "tri_cum"])
        c["order"] = [int(v) for v in rng.permutation(10)]
        c["warm"] = gen.warm_ops(rng, ops=["latest", "triind", "to_tbl", "str", "rlvi", "copy", "devp", "clvi", "diagonal", "maturity"])
        if c["tri_type"] == "cum" and c.get("square", True):
            c["warm"] += gen.warm_ops(rng, gen.ri(rng, 0, 2), ops=["a2a", "base_cl", "to_incr"]) if n > 2 else []
        if not c.get("square", True):
            c["warm"] = [w for w in c["warm"] if w != "diagonal"]
        out.append(c)
    return out


def staircase(rng, c):
    """Origins of any length; inside, a few periods of an origin were never recorded."""
    n, m = len(c["origins"]), len(c["devs"])
    A = np.full((n, m), np.nan)
    k = m
    for i in range(n):
        A[i, :k] = rng.randint(1, 90, k)
        k = max(1, k - gen.pick(rng, [0, 0, 1, 1, 2]))
    for _ in range(gen.ri(rng, 1, n)):
        i = gen.ri(rng, 0, n - 1)
        k = int(np.flatnonzero(~np.isnan(A[i]))[-1])
        if k > 0:
            A[i, gen.ri(rng, 0, k - 1)] = np.nan
    for j in range(m):
        if np.isnan(A[:, j]).all():
            A[0, j] = 7.
    c["cells"] = gen.tolist(A)


def nontrivial(c):
    return len(c["origins"]) >= 3


def run(c, mon):
    A = gen.toarr(c["cells"])
    n = c["n"]
    X = oracle.cum_expected(A) if c["tri_type"] == "cum" else oracle.incr_expected(A)
    t = gen.build(c, mon, c["pres"], c["route"], c["tri_type"])
    same(mon, "cells", t.values, X, 1e-13, np.nansum(np.abs(A), axis=1)[:, None], what="cells")
    gen.warm(t, c["warm"], mon)
    V = np.array(t.values, dtype=float)      # observed cells
    obs = ~np.isnan(V)
    O, D = c["origins"], c["devs"]
    square = c.get("square", True)
    m = len(D)
    last_j = [np.flatnonzero(obs[i])[-1] for i in range(n)]
    last_i = [np.flatnonzero(obs[:, j])[-1] for j in range(m)]
    lat = np.array([V[i, last_j[i]] for i in range(n)])

    def q_cells():
        mon.check("nbr_cells", int(t.nbr_cells) == int(obs.sum()), "{} expected {}", t.nbr_cells, obs.sum())

    def q_axes():
        labels(mon, "axes", t.origins, O, "origins")
        labels(mon, "axes", t.devp, D, "devp")

    def q_rlvi():
        r = t.rlvi
        labels(mon, "rlvi", r.index, O, "rlvi index")
        labels(mon, "rlvi", r["dev"], [D[j] for j in last_j], "rlvi dev")
        labels(mon, "rlvi", r["col_offset"], last_j, "rlvi offset")

    def q_clvi():
        r = t.clvi
        labels(mon, "clvi", r.index, D, "clvi index")
        labels(mon, "clvi", r["origin"], [O[i] for i in last_i], "clvi origin")
        labels(mon, "clvi", r["row_offset"], last_i, "clvi offset")

    def q_latest():
        r = t.latest
        labels(mon, "latest", r.columns, ["origin", "dev", "latest"], "latest columns")
        labels(mon, "latest", r["origin"], O, "latest origin")
        labels(mon, "latest", r["dev"], [D[j] for j in last_j], "latest dev")
        same(mon, "latest", r["latest"], lat, 1e-12, what="latest")

    def q_lo():
        r = t.latest_by_origin
        labels(mon, "latest", r.index, O, "latest_by_origin index")
        same(mon, "latest", r.values, lat, 1e-12, what="latest_by_origin")

    def q_ld():
        r = t.latest_by_devp
        if not square:
            got = sorted((D.index(int(d)), float(v)) for d, v in r.items())
            labels(mon, "latest", [g[0] for g in got], sorted(last_j), "latest_by_devp index")
            same(mon, "latest", [g[1] for g in got], [v for _, v in sorted(zip(last_j, lat))], 1e-12, what="latest_by_devp")
            return
        labels(mon, "latest", r.index, D, "latest_by_devp index")
        e = np.empty(n)
        for i in range(n):
            e[last_j[i]] = lat[i]
        same(mon, "latest", r.values, e, 1e-12, what="latest_by_devp")

    def q_ind():
        r = t.triind
        labels(mon, "triind", r.index, O, "triind index")
        labels(mon, "triind", r.columns, D, "triind columns")
        E = np.array([[0 if i <= last_i[j] else 1 for j in range(m)] for i in range(n)])
        same(mon, "triind", r.values.astype(float), E, 0, what="triind")

    def q_mat():
        r = t.maturity
        labels(mon, "maturity", r.index, O, "maturity index")
        # an origin's own last period, unless a younger origin has later ones
        ok = [i for i in range(n) if square or max(j for j in range(m) if i <= last_i[j]) == last_j[i]]
        labels(mon, "maturity", np.asarray(r.values)[ok], [D[last_j[i]] for i in ok], "maturity")

    def q_diag():
        if not square:
            for off in (-m, m, -m - 2):
                mon.raises("offset", ValueError, t.diagonal, off)
            return
        for off in range(0, -n, -1):
            r = mon.call("diagonal", t.diagonal, off) if off else mon.call("diagonal", t.diagonal)
            ex = [(O[i], D[n - 1 - i + off], V[i, n - 1 - i + off]) for i in range(n) if n - 1 - i + off >= 0]
            labels(mon, "diagonal", r.columns, ["origin", "dev", "value"], "diagonal columns")
            labels(mon, "diagonal", r["origin"], [e[0] for e in ex], "diagonal({}) origin".format(off))
            labels(mon, "diagonal", r["dev"], [e[1] for e in ex], "diagonal({}) dev".format(off))
            same(mon, "diagonal", r["value"], [e[2] for e in ex], 1e-12, what="diagonal({})".format(off))
        for off in (-n, -n - 3, n):
            mon.raises("offset", ValueError, t.diagonal, off)

    qs = [q_cells, q_axes, q_rlvi, q_clvi, q_latest, q_lo, q_ld, q_ind, q_mat, q_diag]
    for k in c["order"]:
        qs[k]()
    for k in c["order"][:3]:      # asking again
        qs[k]()
    mon.check("cells", np.array_equal(V, np.array(t.values, float), equal_nan=True), "cells changed by queries")
