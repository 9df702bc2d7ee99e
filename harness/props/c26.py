"""C26: sample data sets load completely and unaltered."""
import csv
import hashlib
import json
import os
import numpy as np
from lib import gen, oracle
from lib.cmp import same, labels

RULE = ("Every packaged data set, as records and as both triangles, in random orders of loads interleaved with "
        "modifications of what was loaded, against the packaged file read independently and against recorded digests; "
        "random invalid names and types; non-trivial: every case.")
MUST = ["names", "records", "triangle", "independent", "reject"]

# file, records, sum, digest of the sorted records
SETS = {
    "raa": ["RAA.csv", 55, 160987.0, "bdd57889b7cf9055"],
    "ta83": ["TaylorAshe83.csv", 55, 34358090.0, "d2532b4c7bdaaf0e"],
    "amw09": ["amw09.csv", 55, 92741342.0, "a4e9409beff0e87a"],
    "autoliab": ["AutoLiabMedical.csv", 55, 2197134.0, "a625a9df8b67774b"],
    "glre": ["GLReinsurance2004.csv", 105, 56531053.0, "435040a2ca9aa6ba"],
    "singinjury": ["SingaporeInjury.csv", 45, 11026482.3, "7cdfc96fdba47805"],
    "singproperty": ["SingaporeProperty.csv", 15, 25101206.26, "4825e16168a1e8fc"],
}


def cases(rng, tier):
    k = 24 if tier == "quick" else 300
    out = []
    for i in range(k):
        names = list(SETS)
        seq = [[names[j], None] for j in range(7)] + [[names[j], "cum"] for j in range(7)] + [[names[j], "incr"] for j in range(7)]
        seq += [[gen.pick(rng, names), gen.pick(rng, [None, "cum", "incr"])] for _ in range(6)]
        seq = [seq[j] for j in rng.permutation(len(seq))]
        out.append({"seq": seq, "rs": gen.ri(rng, 0, 10 ** 6),
                    "bad": [gen.pick(rng, ["RAA", "", "raa ", "lrdb2", "ta 83", "autolia", "singinjur", "x", "glreins"]) for _ in range(3)],
                    "badtype": [gen.pick(rng, ["xcum", "tri", "", "paid", "triangle", "t", "1", "devcum", " "]) for _ in range(3)]})
    return out


def nontrivial(c):
    return True


def read(name):
    import trikit
    f = os.path.join(os.path.dirname(trikit.__file__), "datasets", SETS[name][0])
    with open(f, encoding="utf-8-sig") as fh:
        return [(int(float(r["origin"])), int(float(r["dev"])), float(r["value"])) for r in csv.DictReader(fh)]


def run(c, mon):
    import trikit
    from trikit import triangle
    rng = np.random.RandomState(c["rs"])
    names = mon.call("get_datasets", trikit.get_datasets)
    mon.check("names", isinstance(names, list) and names == sorted(SETS), "data sets {}", names)
    for name, ty in c["seq"]:
        rows = read(name)
        f, k, tot, dig = SETS[name]
        if ty is None:
            d = mon.call("load", trikit.load, name) if rng.rand() < .5 else mon.call("load", trikit.load, name, tri_type=None)
            mon.check("records", list(d.columns) == ["origin", "dev", "value"], "columns {}", list(d.columns))
            labels(mon, "records", d.index, range(len(d)), "index")
            got = [(int(a), int(b), float(v)) for a, b, v in zip(d["origin"], d["dev"], d["value"])]
            mon.check("records", got == rows, "{}: records differ from the packaged file", name)
            s = hashlib.sha256(json.dumps(sorted(got)).encode()).hexdigest()[:16]
            mon.check("records", len(got) == k and s == dig, "{}: {} records, sum {} (expected {}, {})", name, len(got), sum(v for *_, v in got), k, tot)
            mon.seen("records", len(got))
            # changing what was loaded affects no later load
            d["value"] = -1.
            d.iloc[0, 0] = 7
        else:
            t = mon.call("load", trikit.load, name, ty) if rng.rand() < .5 else mon.call("load", trikit.load, name, tri_type=ty)
            mon.check("triangle", type(t) is (triangle.CumTriangle if ty == "cum" else triangle.IncrTriangle), "{} loaded as {}", ty, type(t))
            O, D = sorted({r[0] for r in rows}), sorted({r[1] for r in rows})
            labels(mon, "triangle", t.index, O, "origins")
            labels(mon, "triangle", t.columns, D, "periods")
            A = np.full((len(O), len(D)), np.nan)
            for o, e, v in rows:
                i, j = O.index(o), D.index(e)
                A[i, j] = v if np.isnan(A[i, j]) else A[i, j] + v
            E = oracle.cum_expected(A) if ty == "cum" else oracle.incr_expected(A)
            same(mon, "triangle", t.values, E, 1e-12, what="{} {}".format(name, ty))
            mon.seen("cells", int((~np.isnan(A)).sum()))
            t.iloc[0, 0] = -5.
        mon.seen("decided:independent")
    for b in c["bad"]:
        for ty in (None, "cum"):
            mon.raises("reject", KeyError, trikit.load, b, ty)
    for b in c["badtype"]:
        for name in (gen.pick(rng, list(SETS)), "raa"):
            mon.raises("reject", ValueError, trikit.load, name, b)
            mon.raises("reject", ValueError, trikit.load, name, tri_type=b)
