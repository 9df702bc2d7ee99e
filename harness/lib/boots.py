"""Bootstrap workloads and positional views of the recorded simulations."""
import numpy as np
from scipy import stats as st
from lib import gen, oracle, work
from lib.core import Inconclusive

STYLES = ["smooth", "smooth", "wild", "integer", "neg", "recov", "shorttail", "ties", "nearties", "calm", "twins"]


def case(rng, lo=4, hi=8, **k):
    c = work.est_case(rng, lo=lo, hi=hi, style=k.pop("style", None) or gen.pick(rng, STYLES), **k)
    c["rs"] = gen.ri(rng, 0, 2 ** 31 - 2)
    c["parametric"] = bool(rng.rand() < .35)
    return c


def usable(r, C, mon):
    """The model needs at least two residuals, all finite; whether the data provide them is judged from the data."""
    n = C.shape[0]
    with np.errstate(all="ignore"):
        inc = oracle.boot_fit(C)[2]
    obs = observed(n)
    delicate = not (np.abs(inc[obs]) > 1e-11 * np.nanmax(np.abs(C))).all()
    adj = r.adjusted_residuals.values.astype(float)
    pool = adj[:-1, :-1]
    pool = pool[~np.isnan(pool) & (pool != 0)]
    good = not np.isinf(adj).any() and pool.size >= 2 and np.isfinite(pool).all()
    if delicate and not good:
        raise Inconclusive("no usable residuals")
    mon.check("usable", good, "residuals not usable: {}", adj.tolist())
    return pool


def cube(mon, kind, c, r, cols):
    """{column: array[sim, origin, dev]}; every cell of every replicate once."""
    n, S = c["n"], r.sims
    d = r.sims_data
    mon.check(kind, len(d) == S * n * n, "{} records for {} replicates of {} cells", len(d), S, n * n)
    sims = sorted(set(int(v) for v in d["sim"]))
    mon.check(kind, sims == list(range(S)), "replicates numbered {}", sims[:5])
    o = {v: k for k, v in enumerate(c["origins"])}
    e = {v: k for k, v in enumerate(c["devs"])}
    I = np.array([int(v) for v in d["sim"]])
    try:
        J = np.array([o[int(v)] for v in d["origin"]])
        K = np.array([e[int(v)] for v in d["dev"]])
    except KeyError as ex:
        mon.check(kind, False, "unknown label {}", ex)
    flat = (I * n + J) * n + K
    mon.check(kind, np.unique(flat).size == len(d), "some cells of a replicate appear more than once")
    out = {}
    for k in cols:
        v = d[k].values
        a = np.empty(S * n * n, dtype=object if v.dtype == object else float)
        a[flat] = v
        out[k] = a.reshape(S, n, n)
    return out


def observed(n):
    return np.array([[i + j < n for j in range(n)] for i in range(n)])


# --- statistical monitors: each returns a p-value, judged against ALARM by the caller
ALARM = 1e-10


def chisq(counts, expected):
    """Two-sided: counts too uneven, or too even, for independent draws."""
    counts, expected = np.asarray(counts, float), np.asarray(expected, float)
    x = ((counts - expected) ** 2 / expected).sum()
    k = counts.size - 1
    return 2 * min(st.chi2.sf(x, k), st.chi2.cdf(x, k))


def ks(u):
    return st.kstest(u, "uniform").pvalue


def corr(x, y):
    """p-value of no correlation between two long samples (normal scores)."""
    x, y = np.ravel(x), np.ravel(y)
    ok = ~(np.isnan(x) | np.isnan(y))
    x, y = st.rankdata(x[ok]), st.rankdata(y[ok])
    if x.size < 200 or x.std() == 0 or y.std() == 0:
        return 1.
    r = np.corrcoef(x, y)[0, 1]
    return 2 * st.norm.sf(abs(r) * np.sqrt(x.size - 1))


def p_check(mon, kind, p, what):
    mon.check(kind, p > ALARM, "{}: p-value {:.3g}", what, p)
