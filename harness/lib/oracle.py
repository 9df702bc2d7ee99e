"""
Independent reference models (plain numpy over positions; labels and pandas play no part),
written from the definitions: Mack (1993, 1999), England & Verrall (2002), Shapland (2016).
"""
import math

import numpy as np
from scipy import stats as st


def incr_expected(A):
    """Cells of an incremental triangle given cell totals (nan: nothing recorded)."""
    X = A.copy()
    c = X[:, 0]
    X[:, 0] = np.where(c <= 0, 1., c)        # nan compares False: stays empty
    return X


def cum_expected(A):
    """Cells of a cumulative triangle given cell totals."""
    n, m = A.shape
    X = np.full((n, m), np.nan)
    for i in range(n):
        run = 0.
        for j in range(m):
            if not np.isnan(A[i, j]):
                run += A[i, j]
                X[i, j] = 1. if (j == 0 and run <= 0) else run
    obs = ~np.isnan(A)
    for i in range(n):
        if np.isnan(X[i, 0]):
            X[i, 0] = 1.
        for j in range(1, m):
            if np.isnan(X[i, j]) and obs[i:, j].any():
                X[i, j] = X[i, j - 1]
    return X


def cum(A):
    """Cumulative amounts of a complete run-off triangle."""
    return np.cumsum(A, axis=1)


def a2a(C):
    n, m = C.shape
    with np.errstate(all="ignore"):
        F = C[:, 1:] / C[:, :-1]
    return F[:n - 1]


def average(kind, k, f, c0, c1, w):
    """
    Average over the k most recent origins (0: all) of one development period.
    f: observed link ratios, c0/c1: amounts, w: 1 to include; arrays over the period's origins.
    """
    r = len(f)
    lo = 0 if k == 0 else max(0, r - k)
    f, c0, c1, w = f[lo:], c0[lo:], c1[lo:], w[lo:].astype(bool)
    if kind == "weighted":
        s1, s0 = c1[w].sum(), c0[w].sum()
        with np.errstate(all="ignore"):
            return float(np.float64(s1) / np.float64(s0))
    f = f[w]
    if len(f) == 0:
        return np.nan
    if kind == "simple":
        return float(np.mean(f))
    if kind == "geometric":
        if (f < 0).any():
            return np.nan
        with np.errstate(divide="ignore", invalid="ignore"):
            return float(np.exp(np.mean(np.log(f))))
    lo_, hi_ = f.min(), f.max()
    if lo_ == hi_:
        return lo_
    if len(f) == 2:
        return float(f.mean())
    g = f[(f != lo_) & (f != hi_)]
    return float(g.mean()) if len(g) else np.nan


def avg_label(kind, k):
    return "all-" + kind if k == 0 else "{}-{}".format(kind, k)


def avg_table(F, C, W):
    """{label: array over periods}; F observed ratios (n-1 x n-1), W include indicator."""
    n = C.shape[0]
    out = {}
    for kind in ("simple", "geometric", "medial", "weighted"):
        for k in list(range(1, F.shape[0])) + [0]:
            row = []
            for j in range(F.shape[1]):
                r = n - 1 - j
                row.append(average(kind, k, F[:r, j], C[:r, j], C[:r, j + 1], W[:r, j]))
            out[avg_label(kind, k)] = np.array(row, dtype=float)
    return out


def weighted_ldfs(C, W=None):
    n = C.shape[0]
    f = []
    for j in range(n - 1):
        r = n - 1 - j
        w = np.ones(r, bool) if W is None else W[:r, j].astype(bool)
        f.append(C[:r, j + 1][w].sum() / C[:r, j][w].sum())
    return np.array(f)


def base(C, f, tail):
    """f: n-1 selected factors."""
    n = C.shape[0]
    full = np.append(f, tail)
    cl = np.cumprod(full[::-1])[::-1]
    latest = np.array([C[i, n - 1 - i] for i in range(n)])
    mat = np.array([n - 1 - i for i in range(n)])
    cldf = cl[mat]
    ult = latest * cldf
    sq = C.copy()
    for i in range(n):
        for j in range(n - i, n):
            sq[i, j] = sq[i, j - 1] * full[j - 1]
    return dict(cl=cl, full=full, latest=latest, mat=mat, cldf=cldf, ult=ult, res=ult - latest, sq=sq)


def mack_ldfs(C, alpha, W=None):
    n = C.shape[0]
    F = a2a(C)
    out = []
    for j in range(n - 1):
        r = n - 1 - j
        w = np.ones(r) if W is None else W[:r, j].astype(float)
        x = w * C[:r, j] ** alpha
        out.append((x * F[:r, j]).sum() / x.sum())
    return np.array(out)


def mack_sigma2(C, alpha, f):
    n = C.shape[0]
    F = a2a(C)
    s = np.full(n - 1, np.nan)
    for j in range(n - 2):
        r = n - 1 - j
        s[j] = (C[:r, j] ** alpha * (F[:r, j] - f[j]) ** 2).sum() / (r - 1)
    return s


def mack_last_sigma2(s2, s3):
    """Mack's extrapolation from the second last (s2) and third last (s3) variances."""
    cands = [min(s2, s3)]
    if s3 != 0:
        cands.append(s2 ** 2 / s3)
    return min(cands)


def mack_errors(C, alpha, f, sig2, fvar):
    """Process and parameter error per origin, and total mse (recursions)."""
    n = C.shape[0]
    sq = base(C, f, 1.)["sq"]
    proc, par = np.zeros(n), np.zeros(n)
    for i in range(n):
        pr = pa = 0.
        for j in range(n - 1 - i, n - 1):
            c = sq[i, j]
            pr = f[j] ** 2 * pr + sig2[j] * c ** (2 - alpha)
            pa = f[j] ** 2 * pa + fvar[j] * c ** 2 + fvar[j] * pa
        proc[i], par[i] = pr, pa
    ult = sq[:, -1]
    mse = proc + par
    tot = 0.
    for i in range(1, n):
        cov = sum(fvar[j] / f[j] ** 2 for j in range(n - 1 - i, n - 1))
        tot += mse[i] + 2 * ult[i] * ult[i + 1:].sum() * cov
    return proc, par, mse, tot


def avg_rank(x):
    return st.rankdata(x, method="average")


def spearman_T(F):
    """Mack's T from link ratios F[(n-1) x (n-1)], nan outside the triangle."""
    n = F.shape[0] + 1
    num = den = 0.
    for k in range(2, n - 1):
        m = n - k
        s = avg_rank(F[:m, k - 2])
        r = avg_rank(F[:m, k - 1])
        T = 1 - 6 * ((r - s) ** 2).sum() / (m ** 3 - m)
        num += (n - k - 1) * T
        den += n - k - 1
    return num / den


def cy_test(F, p):
    n1 = F.shape[0]
    med = [np.median(F[:n1 - j, j]) for j in range(n1)]
    Z = E = V = 0.
    for d in range(1, n1):              # diagonal with d+1 link ratios
        S = L = 0
        for j in range(d + 1):
            x = F[d - j, j]
            S += x < med[j]
            L += x > med[j]
        m_ = S + L
        if m_ == 0:
            # n = 0: nothing to count
            e = v = 0.
        else:
            m = (m_ - 1) // 2
            b = math.comb(m_ - 1, m)
            e = m_ / 2. - b * m_ / 2. ** m_
            v = m_ * (m_ - 1) / 4. - b * m_ * (m_ - 1) / 2. ** m_ + e - e * e
        Z += min(S, L)
        E += e
        V += v
    z = abs(st.norm.ppf(p / 2.))
    return (E - z * math.sqrt(max(V, 0)), E + z * math.sqrt(max(V, 0))), Z, E, V


def boot_fit(C):
    n = C.shape[0]
    f = weighted_ldfs(C)
    fit = np.full((n, n), np.nan)
    for i in range(n):
        k = n - 1 - i
        fit[i, k] = C[i, k]
        for j in range(k, 0, -1):
            fit[i, j - 1] = fit[i, j] / f[j - 1]
    inc = np.diff(fit, axis=1, prepend=0.)
    return f, fit, inc
