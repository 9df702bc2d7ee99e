"""C09: estimates scale with the currency unit."""
import numpy as np
from lib import gen, oracle, work, numbers
from lib.cmp import same

RULE = ("A random history and the same history multiplied by a positive constant (1e-9 .. 1e9; powers of two where ties "
        "or vanishing variances make rounding matter), through triangle statistics, base (all selections, tails), Mack "
        "(alpha, distribution) with exclusions and the bootstrap fit; each number is compared under its dimension; "
        "non-trivial: at least five origins.")
MUST = ["stats", "base", "mack", "boot"]
ASSUMPTIONS = ["first-period amounts are positive in both units (C01's replacement of non-positive amounts by 1 is not scale free)"]


def tied(c):
    """Whether a period's link ratios (nearly) tie, so that rounding in another unit may break the tie."""
    X = oracle.cum_expected(gen.toarr(c["cells"]))
    with np.errstate(all="ignore"):
        F = X[:, 1:] / X[:, :-1]
    for j in range(F.shape[1]):
        f = np.sort(F[:, j][~np.isnan(F[:, j])])
        if f.size > 1 and (np.diff(f) <= 1e-11 * np.maximum(np.abs(f[1:]), 1.)).any():
            return True
    return False


def cases(rng, tier):
    k = 56 if tier == "quick" else 1200
    out = []
    for i in range(k):
        style = gen.pick(rng, ["smooth", "wild", "neg", "recov", "integer", "ties", "shorttail", "smooth", "wild", "flatcol"])
        c = gen.history(rng, n=gen.ri(rng, 4, 8) if i % 7 else 11, style=style, scale=1.)
        c["pres"] = gen.presentation(rng, plain=True)
        c["pres"]["fields"] = gen.pick(rng, gen.FIELDS)
        exact = style in ("integer", "ties", "flatcol") or tied(c)
        c["mult"] = float(gen.pick(rng, [2. ** -20, 2. ** 10, 2. ** -10, 2. ** 30, .5, 2. ** -34] if exact else [1e3, 1e-3, 1e6, 1e-6, .37, 1e-8, 1e9, 4.]))
        c["excl"] = []
        if rng.rand() < .35 and style != "flatcol":
            c["excl"] = [e for e in work.exclusions(rng, c["n"]) if c["n"] - 1 - e[1] > 3][:3]
            c["excl"] = [e for k2, e in enumerate(c["excl"]) if all(z[1] != e[1] for z in c["excl"][:k2])]
        c["base"] = [gen.pick(rng, ["all-weighted", "all-simple", "all-medial", "simple-2", "weighted-2", "all-geometric"]), gen.pick(rng, [1., 1.04])]
        c["mack"] = [[gen.ri(rng, 0, 2), d] for d in ("norm", "lognorm")]
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 5 and c["mult"] != 1


POW = {"C": 1, "latest": 1, "latest_by_origin": 1, "latest_by_devp": 1, "diag1": 1, "incr": 1, "tbl": 1,
       "s:latest": 1, "s:ultimate": 1, "s:reserve": 1, "s:std_error": 1, "sq": 1, "proc": 2, "par": 2, "mse": 2,
       "g:10": 1, "g:90": 1, "fit_cum": 1, "fit_incr": 1, "scale": 1, "us": .5, "adj": .5, "pool": .5}


def power(part, k, alpha):
    if k == "devpvar":
        return alpha
    if k.startswith("s:") and k.endswith("%"):
        return 1
    return POW.get(k, 0)


def gather(c, mon, mult):
    case = dict(c, cells=gen.tolist(gen.toarr(c["cells"]) * mult))
    t = gen.build(case, mon, c["pres"], "tab_incr", "cum")
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    out = {"stats": (numbers.stats(t, mon), 0)}
    out["base"] = (numbers.base(mon.call("base_cl", t.base_cl, sel=c["base"][0], tail=c["base"][1])), 0)
    if c["n"] >= 5:
        for alpha, dist in c["mack"]:
            m = mon.call("mack_cl", t.mack_cl, alpha=alpha, dist=dist)
            out["mack-{}-{}".format(alpha, dist)] = (numbers.mack(m, mon), alpha)
    if c["style"] not in ("flatcol",):
        z = mon.call("boot_cl", t.boot_cl, sims=2, random_state=1)
        out["boot"] = (numbers.boot_fit(z), 0)
    return out


def run(c, mon):
    a, b = gather(c, mon, 1.), gather(c, mon, c["mult"])
    for part in a:
        x, alpha = a[part]
        y, _ = b[part]
        for k in x:
            f = c["mult"] ** power(part, k, alpha)
            mx = np.nanmax(np.abs(x[k])) if x[k].size and not np.isnan(x[k]).all() else 0.
            noise = mx * 1e-3
            if k in ("s:reserve",):
                noise = np.nanmax(np.abs(x["s:ultimate"]))
            if k in ("g:10", "g:90") or k.endswith("%"):
                noise = np.nanmax(np.abs(x["s:ultimate"]))
            if k in ("incr", "fit_incr"):
                noise = np.nanmax(np.abs(x["C" if k == "incr" else "fit_cum"]))
            if k in ("us", "adj", "pool"):
                noise = mx * 100
            tol = 1e-8
            if k in ("s:cv",) or (k == "devpvar" or k == "ldfvar" or k in ("proc", "par", "mse", "s:std_error")):
                tol = 1e-7
            if k == "s:cv":
                ok = np.abs(x["s:reserve"]) > 1e-6 * np.abs(x["s:ultimate"])
                same(mon, part.split("-")[0], y[k][ok], x[k][ok] * f, 1e-6, what="{} {} x {}".format(part, k, c["mult"]))
                continue
            if k == "pool":
                mon.check("boot", y[k].size == x[k].size, "pool size {} vs {}", y[k].size, x[k].size)
            same(mon, part.split("-")[0], y[k], x[k] * f, tol, noise * f, what="{} {} x {}".format(part, k, c["mult"]))
