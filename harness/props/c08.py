"""C08: estimates do not depend on labels or field names."""
import numpy as np
from lib import gen, work, numbers
from lib.cmp import same, labels

RULE = ("The same history under plain labels (origins and periods 1..n, standard fields) and under random origin labels "
        "(years, zero-based, gapped, crossing digit counts, beyond 32 bits), period labels (zero-based, months, offset, uneven) and "
        "field names; all numbers of triangle statistics, base, Mack and seeded bootstrap estimates are compared by "
        "position and all labels with the given ones; non-trivial: labels differ and at least four origins.")
MUST = ["stats", "base", "mack", "boot", "labels"]


def cases(rng, tier):
    k = 40 if tier == "quick" else 900
    out = []
    for i in range(k):
        c = gen.history(rng, n=gen.ri(rng, 4, 7) if i % 6 else gen.ri(rng, 10, 12), style=gen.pick(rng, ["smooth", "wild", "integer", "ties", "neg", "recov", "shorttail"]),
                        ostyle=["years", "zero", "cross", "gapped", "big", "stamps", "small"][i % 7],
                        dstyle=["zero", "months", "half", "offset", "uneven", "step", "large", "uneven", "large"][i % 9])
        c["fields"] = gen.FIELDS[(i * 7 + i // 19) % len(gen.FIELDS)]
        c["excl"] = work.exclusions(rng, c["n"]) if rng.rand() < .3 else []
        c["excl"] = [e for e in c["excl"] if c["n"] - 1 - e[1] > 2 and sum(1 for z in c["excl"] if z[1] == e[1]) < c["n"] - 1 - e[1] - 1]
        c["base"] = [gen.pick(rng, ["all-weighted", "all-simple", "all-medial", "simple-2", "weighted-2", "all-geometric"]), gen.pick(rng, [1., 1.04])]
        c["mack"] = [gen.ri(rng, 0, 2), gen.pick(rng, ["norm", "lognorm"])]
        c["boot"] = [gen.ri(rng, 0, 9999), gen.ri(rng, 2, 6), bool(rng.rand() < .4)]
        out.append(c)
    return out


def nontrivial(c):
    return c["n"] >= 4 and (c["origins"] != list(range(1, c["n"] + 1)) or c["devs"] != list(range(1, c["n"] + 1)))


def gather(c, mon, fields):
    pres = gen.presentation(None, plain=True)
    pres["fields"] = fields
    t = gen.build(c, mon, pres, "tab_incr", "cum")
    if c["excl"]:
        work.exclude(t, c, c["excl"])
    out = {"stats": numbers.stats(t, mon)}
    b = mon.call("base_cl", t.base_cl, sel=c["base"][0], tail=c["base"][1])
    out["base"] = numbers.base(b)
    rs = [b]
    if c["n"] >= 5:
        m = mon.call("mack_cl", t.mack_cl, alpha=c["mack"][0], dist=c["mack"][1])
        out["mack"] = numbers.mack(m, mon)
        rs.append(m)
    if c["n"] >= 4:
        z = mon.call("boot_cl", t.boot_cl, sims=c["boot"][1], random_state=c["boot"][0], parametric=c["boot"][2])
        out["boot"] = numbers.boot(z, mon)
        rs.append(z)
    return t, out, rs


def run(c, mon):
    n = c["n"]
    plain = dict(c, origins=list(range(1, n + 1)), devs=list(range(1, n + 1)))
    _, ref, _ = gather(plain, mon, ["origin", "dev", "value"])
    t, got, rs = gather(c, mon, c["fields"])
    sc = np.nanmax(gen.gcum(gen.toarr(c["cells"])))
    for part in ref:
        mon.check(part, list(ref[part]) == list(got[part]), "{}: {} vs {}", part, list(ref[part]), list(got[part]))
        for k in ref[part]:
            same(mon, part, got[part][k], ref[part][k], 1e-9, what="{} {} under labels {} / {}".format(part, k, c["origins"][:3], c["devs"][:4]))
    O, D = c["origins"], c["devs"]
    for r in rs:
        nm = type(r).__name__
        labels(mon, "labels", r.summary.index, O + ["total"], nm + " summary")
        labels(mon, "labels", r.summary["maturity"], [str(D[n - 1 - i]) for i in range(n)] + [""], nm + " maturity")
        labels(mon, "labels", r.ldfs.index, D, nm + " ldfs")
        labels(mon, "labels", r.trisqrd.index, O, nm + " trisqrd origins")
        labels(mon, "labels", list(r.trisqrd.columns)[:n], D, nm + " trisqrd devs")
        if nm.startswith("Mack"):
            labels(mon, "labels", r.devpvar.index, D[:-1], "devpvar")
            labels(mon, "labels", r.ldfvar.index, D[:-1], "ldfvar")
            labels(mon, "labels", r.process_error.index, O, "process error")
            labels(mon, "labels", r.get_quantiles(.5).index, O + ["total"], "mack quantiles")
        if nm.startswith("Boot"):
            s = r.sims_data
            labels(mon, "labels", sorted(set(s["origin"])), sorted(O), "sims origins")
            labels(mon, "labels", sorted(set(s["dev"])), sorted(D), "sims devs")
            labels(mon, "labels", r.get_quantiles(.5).index, O + ["total"], "boot quantiles")
            labels(mon, "labels", r.fitted_tri_cum.columns, D, "fitted devs")
