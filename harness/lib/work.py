"""Shared pieces of the estimator workloads."""
import numpy as np
from lib import gen


def est_case(rng, lo=3, hi=9, n=None, style=None, scale=None, plain=False, warm=True, positive_incr=False):
    """A complete history fit for the estimators, its presentation, route and prior activity."""
    c = gen.history(rng, n=n, style=style, scale=scale, lo=lo, hi=hi)
    c["pres"] = gen.presentation(rng, plain=plain)
    c["route"] = "tab_incr" if plain else gen.pick(rng, gen.ROUTES)
    c["warm"] = gen.warm_ops(rng) if warm else []
    return c


def build(c, mon):
    t = gen.build(c, mon, c["pres"], c["route"], "cum")
    gen.warm(t, c.get("warm", []), mon)
    return t


def cumobs(t):
    return np.array(t.values, dtype=float)


def exclusions(rng, n, heavy=False):
    """Positions (i, j) of link ratios to leave out."""
    out = []
    for _ in range(gen.pick(rng, [0, 1, 1, 2, 3, 6]) if not heavy else gen.ri(rng, 3, max(4, n))):
        j = gen.ri(rng, 0, n - 2)
        i = gen.ri(rng, 0, n - 2 - j)
        if [i, j] not in out:
            out.append([i, j])
    if rng.rand() < .15:
        j = gen.ri(rng, 0, n - 2)           # every ratio of a period
        out += [[i, j] for i in range(n - 1 - j) if [i, j] not in out]
    return out


def exclude(t, c, positions, value=0, how="setter"):
    if len(positions) % 2:
        _ = t.a2aind
    for k, (i, j) in enumerate(positions):
        o, d = c["origins"][i], c["devs"][j]
        if how == "at" or (how == "mixed" and k % 2):
            t.a2aind.at[o, d] = value
        else:
            t.a2aind = (o, d, value)


def wmat(n, positions):
    W = np.array([[1 if i + j < n - 1 else 0 for j in range(n - 1)] for i in range(n - 1)])
    for i, j in positions:
        W[i, j] = 0
    return W


def triang(n):
    """Indicator of the link ratio triangle."""
    return np.array([[i + j < n - 1 for j in range(n - 1)] for i in range(n - 1)])
