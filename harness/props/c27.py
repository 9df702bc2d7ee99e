"""C27: loss reserving database queries return exactly the matching losses."""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Random databases with the loss reserving database's layout (lines sharing company codes, codes with several "
        "names, names under several codes, shuffled rows, negative amounts, companies without the latest origins, training and completed halves) queried with "
        "random filters against a direct selection; non-trivial: at least three companies in two lines.")
MUST = ["records", "triangle", "reject", "lobs", "specs", "default"]

LOBS = ["comauto", "ppauto", "wkcomp", "medmal", "prodliab", "othliab"]
NAMES = ["Agway Ins Co", "Adriatic", "FM Ins Grp", "State Farm Mut Grp", "Allstate Ins Co Grp", "Erie, Ins", "A B C", "Canal 'Ins'",
         "Allstate", "FM Ins", "Ins Co", "B C", "ADRIATIC", "Agway.Ins.Co", "Agway Ins Co "]


def cases(rng, tier):
    k = 80 if tier == "quick" else 1500
    out = []
    for i in range(k):
        n = gen.ri(rng, 3, 6)
        o0 = gen.pick(rng, [1988, 1998, 1])
        lobs = [LOBS[j] for j in rng.permutation(6)[:gen.ri(rng, 1, 4)]]
        codes = [int(v) for v in rng.choice([1767, 353, 266, 1538, 86, 715, 43, 620, 1090, 10007, 17, 17670, 35], gen.ri(rng, 1, 5), replace=False)]
        comps = []
        # names that begin, end, contain or equal one another up to case, punctuation or spaces
        names = gen.pick(rng, [NAMES, ["Allstate Ins Co Grp", "Allstate", "Ins Co", "Allstate Ins Co"], ["A B C", "B C", "A B"],
                               ["Agway Ins Co", "Agway.Ins.Co", "Agway Ins Co ", "agway ins co"], ["Adriatic", "ADRIATIC", "Adriatic Ins"]])
        for l in lobs:
            for g in codes:
                if rng.rand() < .7:
                    for _ in range(gen.pick(rng, [1, 1, 1, 2])):
                        nm = gen.pick(rng, names) if rng.rand() < .8 else names[0]
                        if [l, g, nm] not in comps:
                            comps.append([l, g, nm])
        if not comps:
            comps = [[lobs[0], codes[0], NAMES[0]]]
        if i % 3 == 0:
            for l, g in (("comauto", 1767), ("comauto", 353), ("ppauto", 1767)):
                if not [x for x in comps if x[:2] == [l, g]]:
                    comps.append([l, g, NAMES[3]])
        q = []
        for _ in range(8):
            x = gen.pick(rng, comps)
            lob = gen.pick(rng, [x[0], x[0], x[0], None])
            g = gen.pick(rng, [x[1], x[1], x[1], None])
            nm = gen.pick(rng, [None, x[2]] if g is None else [None, None, x[2]])
            bad = gen.pick(rng, [None, None, None, "lob", "grcode", "grname"])
            if bad == "lob":
                lob = gen.pick(rng, ["auto", "comAuto", "", "xx"])
            elif bad == "grcode":
                g = gen.pick(rng, [999999, 0, codes[-1]])
            elif bad == "grname":
                nm = gen.pick(rng, ["Nobody", "", NAMES[1], NAMES[2].lower()])
            q.append([lob, g, nm, gen.pick(rng, ["paid", "incurred", "p", "i"]), gen.pick(rng, [True, False, "default"]), gen.pick(rng, [None, None, "cum", "incr"])])
        short = [int(rng.choice([0, 0, 1, 2]) if i % 2 else 0) for _ in comps]
        out.append({"short": short, "n": n, "o0": o0, "comps": comps, "q": q, "rs": gen.ri(rng, 0, 10 ** 6),
                    "badloss": gen.pick(rng, ["xpaid", "", "loss", "bulk", "earned", "x"]), "badtri": gen.pick(rng, ["x", "", "triangle", "full"])})
    return out


def nontrivial(c):
    return len(c["comps"]) >= 3 and len({x[0] for x in c["comps"]}) >= 2


def database(c):
    rng = np.random.RandomState(c["rs"])
    rows = []
    n = c["n"]
    for (l, g, nm), less in zip(c["comps"], c["short"]):
        for i in range(n - less):          # some stopped writing: no records of the latest origins
            for j in range(n):
                rows.append([l, g, nm, c["o0"] + i, j + 1, int(rng.randint(-50, 5000)), int(rng.randint(1, 3000)), 1 if i + j < n else 0])
    rows = [rows[k] for k in rng.permutation(len(rows))]
    return rows


def select(rows, lob, g, nm, loss, train):
    k = 6 if loss.startswith("p") else 5
    return [(r[3], r[4], r[k]) for r in rows if (lob is None or r[0] == lob) and (g is None or r[1] == g)
            and (nm is None or r[2] == nm) and (r[7] == 1 or not train)]


def run(c, mon):
    import trikit
    from trikit import triangle
    base = tempfile.mkdtemp(prefix="vlrdb")
    try:
        path = os.path.join(base, "lrdb.csv")
        rows = database(c)
        cols = ["loss_key", "grcode", "grname", "origin", "dev", "incrd_loss", "paid_loss", "train_ind"]
        extra = pd.DataFrame(rows, columns=cols)
        extra["earned_prem"] = 7
        extra[["loss_key", "earned_prem"] + cols[1:]].to_csv(path, index=False)
        before = open(path).read()
        ref = {"lrdb": path}
        for lob, g, nm, loss, train, ty in c["q"]:
            kw = dict(tri_type=ty, loss_type=loss, lob=lob, grcode=g, grname=nm, dataref=ref)
            if train != "default":
                kw["train_only"] = train
            exp = select(rows, lob, g, nm, loss, bool(train))
            if not exp:
                mon.raises("reject", ValueError, trikit.load_lrdb, **kw)
                continue
            r = mon.call("load_lrdb", trikit.load_lrdb, **kw)
            if ty is None:
                mon.check("records", list(r.columns) == ["origin", "dev", "value"], "columns {}", list(r.columns))
                labels(mon, "records", r.index, range(len(r)), "index")
                got = [(int(a), int(b), float(v)) for a, b, v in zip(r["origin"], r["dev"], r["value"])]
                mon.check("records", sorted(got) == sorted((a, b, float(v)) for a, b, v in exp), "{} records of sum {}, expected {} of sum {} for {}",
                          len(got), sum(v for *_, v in got), len(exp), sum(v for *_, v in exp), kw)
                mon.seen("records", len(got))
            else:
                mon.check("triangle", type(r) is (triangle.CumTriangle if ty == "cum" else triangle.IncrTriangle), "{} gave {}", ty, type(r))
                O, D = sorted({x[0] for x in exp}), sorted({x[1] for x in exp})
                labels(mon, "triangle", r.index, O, "origins")
                labels(mon, "triangle", r.columns, D, "periods")
                A = np.full((len(O), len(D)), np.nan)
                for o, e, v in exp:
                    i, j = O.index(o), D.index(e)
                    A[i, j] = v if np.isnan(A[i, j]) else A[i, j] + v
                same(mon, "triangle", r.values, oracle.cum_expected(A) if ty == "cum" else oracle.incr_expected(A), 1e-12, what="{} {}".format(ty, kw))
        # defaults: commercial auto, company 1767, incurred, training half
        exp = select(rows, "comauto", 1767, None, "incurred", True)
        if exp:
            r = mon.call("load_lrdb", trikit.load_lrdb, dataref=ref)
            mon.check("default", sorted(zip(r["origin"], r["dev"], r["value"])) == sorted(exp), "default query returns {} records, expected {}", len(r), len(exp))
        mon.raises("reject", ValueError, trikit.load_lrdb, loss_type=c["badloss"], lob=None, grcode=None, dataref=ref)
        mon.raises("reject", ValueError, trikit.load_lrdb, tri_type=c["badtri"], lob=None, grcode=None, dataref=ref)
        lobs = mon.call("get_lrdb_lobs", trikit.get_lrdb_lobs, lrdb_path=path)
        mon.check("lobs", list(lobs) == sorted({x[0] for x in c["comps"]}), "lines {}", lobs)
        sp = mon.call("get_lrdb_specs", trikit.get_lrdb_specs, lrdb_path=path)
        mon.check("specs", list(sp.columns) == ["loss_key", "grcode", "grname"], "columns {}", list(sp.columns))
        got = [(a, int(b), d) for a, b, d in zip(sp["loss_key"], sp["grcode"], sp["grname"])]
        want = {tuple(x) for x in c["comps"]}
        mon.check("specs", len(got) == len(want) and set(got) == want, "{} companies, expected {}", len(got), len(want))
        mon.check("specs", [x[:2] for x in got] == sorted(x[:2] for x in got), "companies not sorted: {}", got)
        mon.check("records", open(path).read() == before, "the database was altered")
    finally:
        shutil.rmtree(base)
