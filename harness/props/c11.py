"""C11: answers do not depend on what was computed before."""
import numpy as np
from lib import gen, work, snap, asks

RULE = ("Random histories of 6-14 requests (all properties, averages, estimators with options, conversions, tables, "
        "text) interleaved over two triangles with link ratio exclusions being set and undone; each answer is compared "
        "in full with the answer of a freshly built triangle with the same exclusions, and repeated; "
        "non-trivial: at least six requests.")
MUST = ["answer", "repeat"]


# Asked at the end of every history: whatever was left behind shows in one of these.
FINAL = [["prop", p] for p in asks.PROPS] + [["avgs"], ["incr"], ["tbl"], ["str"], ["diag", -1], ["base", "all-weighted", 1.]]


def cases(rng, tier):
    k = 64 if tier == "quick" else 900
    out = []
    for i in range(k):
        c = work.est_case(rng, lo=4, hi=7, style=gen.pick(rng, ["smooth", "integer", "ties", "wild", "neg", "recov", "shorttail"]), warm=False)
        e = work.est_case(rng, lo=4, hi=6, style="smooth", warm=False)
        if rng.rand() < .6:         # the other triangle has the same labels, so anything keyed by label collides
            e = work.est_case(rng, n=c["n"], style="smooth", warm=False)
            e["origins"], e["devs"], e["pres"] = c["origins"], c["devs"], c["pres"]
        c["other"] = e
        steps = []
        pool = [asks.rand_ask(rng, c["n"], boot=i % 2 == 0) for _ in range(4)]
        if i % 3 == 0:
            # the same estimate, with exclusions changing around it
            pool = [["avgs"], gen.pick(rng, [["base", "all-weighted", 1.], ["base", "all-simple", 1.02]]), ["mack", gen.ri(rng, 0, 2), "norm", .9, False, .5] if c["n"] > 4 else ["avgs"], ["prop", "a2aind"]]
        for _ in range(gen.ri(rng, 6, 12)):
            x = rng.rand()
            if x < .3:
                j = gen.ri(rng, 0, c["n"] - 3)
                ii = gen.ri(rng, 0, c["n"] - 2 - j)
                steps.append(["excl", ii, j, gen.pick(rng, ["setter", "at"])])
            elif x < .35:
                steps.append(["undo"])
            elif x < .4:
                steps.append(["undo-some", gen.ri(rng, 0, 1)])
            elif x < .5:
                steps.append(["other", asks.rand_ask(rng, e["n"], boot=False)])
            else:
                steps.append(["ask", gen.pick(rng, pool) if rng.rand() < .5 else asks.rand_ask(rng, c["n"], boot=i % 2 == 0)])
        if rng.rand() < .5:
            steps.append(["undo"])
        steps.append(["ask", gen.pick(rng, pool)])
        c["order"] = [int(v) for v in rng.permutation(len(FINAL))]
        c["steps"] = steps
        out.append(c)
    return out


def nontrivial(c):
    return len(c["steps"]) >= 6


def run(c, mon):
    t = gen.build(c, mon, c["pres"], c["route"], "cum")
    u = gen.build(c["other"], mon, c["other"]["pres"], c["other"]["route"], "cum")
    excl = []
    nasks = 0
    for s in c["steps"]:
        if s[0] == "excl":
            p = [s[1], s[2]]
            # keep at least two ratios of a period, so that every estimate stays defined
            if p in excl or sum(1 for e in excl if e[1] == s[2]) >= c["n"] - 1 - s[2] - 2:
                continue
            work.exclude(t, c, [p], 0, s[3])
            excl.append(p)
            mon.seen("exclusion")
        elif s[0] == "undo":
            work.exclude(t, c, excl, 1, "mixed")
            excl = []
            mon.seen("undo")
        elif s[0] == "undo-some":
            some = excl[s[1] % 2::2]
            work.exclude(t, c, some, 1, "mixed")
            excl = [p for p in excl if p not in some]
            mon.seen("undo-some")
        elif s[0] == "other":
            a = asks.ask(u, s[1], mon)
            f = gen.build(c["other"], mon, c["other"]["pres"], c["other"]["route"], "cum")
            b = asks.ask(f, s[1], mon)
            mon.check("answer", snap.same(a, b, 1e-12), "other triangle, {}: {}", s[1], snap.diff(a, b, tol=1e-12))
        else:
            a = asks.ask(t, s[1], mon)
            f = gen.build(c, mon, c["pres"], c["route"], "cum")
            if excl:
                work.exclude(f, c, excl, 0, "setter")
            b = asks.ask(f, s[1], mon)
            mon.check("answer", snap.same(a, b, 1e-12), "{} with exclusions {} (fresh -> used): {}", s[1], excl, snap.diff(b, a, tol=1e-12))
            nasks += 1
            if nasks % 2:
                again = asks.ask(t, s[1], mon)
                mon.check("repeat", snap.same(a, again, 1e-12), "{} repeated: {}", s[1], snap.diff(a, again, tol=1e-12))
    f = gen.build(c, mon, c["pres"], c["route"], "cum")
    work.exclude(f, c, excl, 0, "setter")
    for i in c["order"]:
        a, b = asks.ask(t, FINAL[i], mon), asks.ask(f, FINAL[i], mon)
        mon.check("answer", snap.same(a, b, 1e-12), "{} at the end, with exclusions {} (fresh -> used): {}", FINAL[i], excl, snap.diff(b, a, tol=1e-12))
    f = gen.build(c["other"], mon, c["other"]["pres"], c["other"]["route"], "cum")
    for i in c["order"][:8]:
        a, b = asks.ask(u, FINAL[i], mon), asks.ask(f, FINAL[i], mon)
        mon.check("answer", snap.same(a, b, 1e-12), "other triangle at the end, {} (fresh -> used): {}", FINAL[i], snap.diff(b, a, tol=1e-12))
