"""C15: Mack development parameters match their definitions for every alpha."""
import numpy as np
from lib import gen, oracle, work
from lib.cmp import same, labels, close
from props.c12 import verify_attrs, ATTR

RULE = ("Random complete triangles (4-13 origins, all styles incl. vanishing variance, labels, routes, scales) for alpha "
        "0/1/2 with exclusions set before or between estimates and prior requests; non-trivial: at least five origins.")
MUST = ["ldfs", "sigma2", "sigma2-last", "ldfvar", "base"]
ASSUMPTIONS = ["every period keeps at least two link ratios (or its only one) after exclusions",
               "the variance parameter divides by the number of observed link ratios less one, excluded ones counted (Mack 1999)"]


def excl_for(rng, n, k=None):
    out = []
    for e in work.exclusions(rng, n, heavy=rng.rand() < .3):
        left = (n - 1 - e[1]) - sum(1 for z in out if z[1] == e[1])
        if left > 2 and e not in out:
            out.append(e)
    return out


def cases(rng, tier):
    k = 120 if tier == "quick" else 2500
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=8)
        c["excl"] = excl_for(rng, c["n"]) if rng.rand() < .5 else []
        c["alphas"] = [int(x) for x in rng.permutation(3)]
        c["how"] = gen.pick(rng, ["setter", "at", "mixed"])
        c["between"] = bool(rng.rand() < .5)
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5


def verify(c, mon, t, C, W, alpha, r):
    n = c["n"]
    D = c["devs"]
    f = np.array(r.ldfs.values, float)
    labels(mon, "ldfs", r.ldfs.index, D, "ldf periods")
    same(mon, "ldfs", f, np.append(oracle.mack_ldfs(C, alpha, W), 1.), 1e-9, what="alpha {} factors, excluded {}".format(alpha, c["excl"]))
    s2 = np.array(r.devpvar.values, float)
    labels(mon, "sigma2", r.devpvar.index, D[:-1], "devpvar periods")
    F = oracle.a2a(C)
    for j in range(n - 2):
        m = n - 1 - j
        w = W[:m, j].astype(float)
        x = w * C[:m, j] ** alpha
        ss = (x * (F[:m, j] - f[j]) ** 2).sum()
        noise = (np.abs(x) * F[:m, j] ** 2).sum() * 1e-13     # squared rounding of a vanishing deviation
        e1 = ss / (m - 1)                                     # Mack (1999): n-k-1, whatever the weights
        ok = abs(s2[j] - e1) <= 1e-7 * abs(e1) + noise
        mon.check("sigma2", ok and (s2[j] >= 0 or (x < 0).any()), "alpha {} period {}: observed {} expected {}", alpha, D[j], s2[j], e1)
    e = oracle.mack_last_sigma2(s2[-2], s2[-3])
    same(mon, "sigma2-last", [s2[-1]], [e], 1e-9, what="alpha {} last period".format(alpha))
    v = np.array(r.ldfvar.values, float)
    den = np.array([(W[:n - 1 - j, j] * C[:n - 1 - j, j] ** alpha).sum() for j in range(n - 1)])
    same(mon, "ldfvar", v, s2 / den, 1e-9, what="alpha {} factor variance".format(alpha))
    labels(mon, "ldfvar", r.ldfvar.index, D[:-1], "ldfvar periods")
    E = oracle.base(C, f[:-1], 1.)
    o = r.summary.iloc[:-1]
    same(mon, "summary", o["cldf"], E["cldf"], 1e-9, what="cumulative factor")
    same(mon, "summary", o["emergence"], 1 / E["cldf"], 1e-9, what="emergence")
    same(mon, "summary", o["latest"], E["latest"], 1e-12, what="latest")
    same(mon, "summary", o["ultimate"], E["ult"], 1e-9, what="ultimate")
    same(mon, "summary", o["reserve"], E["res"], 1e-9, np.abs(E["ult"]), what="reserve")
    tot = r.summary.loc["total"]
    mon.check("summary", np.isnan(float(tot["cldf"])) and np.isnan(float(tot["emergence"])), "total row shows factors")
    same(mon, "summary", [tot["latest"], tot["ultimate"], tot["reserve"]], [E["latest"].sum(), E["ult"].sum(), E["res"].sum()],
         1e-9, np.abs(E["ult"]).sum(), what="total row")
    mon.check("summary", r.alpha == alpha, "alpha {}", r.alpha)
    verify_attrs(mon, r, ATTR)


def run(c, mon):
    n = c["n"]
    t = work.build(c, mon)
    C = work.cumobs(t)
    W0, W1 = work.wmat(n, []), work.wmat(n, c["excl"])
    if c["between"]:
        verify(dict(c, excl=[]), mon, t, C, W0, c["alphas"][0], mon.call("mack_cl", t.mack_cl, alpha=c["alphas"][0]))
    if c["excl"]:
        work.exclude(t, c, c["excl"], how=c["how"])
        mon.seen("exclusions", len(c["excl"]))
    for a in c["alphas"]:
        r = mon.call("mack_cl", t.mack_cl, alpha=a) if not (a == 1 and n % 2) else mon.call("mack_cl", t.mack_cl)
        verify(c, mon, t, C, W1, a, r)
        if a == 1:
            b = mon.call("base_cl", t.base_cl)
            same(mon, "base", r.ldfs.values, b.ldfs.values, 1e-9, what="Mack and base factors")
            for k in ("cldf", "ultimate", "reserve"):
                same(mon, "base", r.summary[k].values[:-1], b.summary[k].values[:-1], 1e-9,
                     np.abs(b.summary["ultimate"].values[:-1].astype(float)), what="Mack and base " + k)
