"""C24: bootstrap randomness is governed solely by random_state."""
import json
import os
import subprocess
import sys
import numpy as np
from lib import gen, work, boots, snap

RULE = ("Random complete triangles; the same bootstrap repeated after random histories of other requests, on other objects "
        "holding the same data, with different states of the global generators and in other processes, for integer, numpy "
        "integer, RandomState and absent random_state; non-trivial: every case (each compares at least six runs).")
MUST = ["seeded", "different", "global-untouched", "state", "advanced", "global", "process"]


def cases(rng, tier):
    k = 32 if tier == "quick" else 1200
    out = []
    for i in range(k):
        c = boots.case(rng, lo=4, hi=7)
        c["rs"] = gen.pick(rng, [0, 1, 42, c["rs"], c["rs"] % 5000])
        c["sims"] = gen.pick(rng, [2, 5, 20, 20, 120, 600 if i % 4 == 0 else 60])
        c["g"] = [gen.ri(rng, 0, 10 ** 6) for _ in range(4)]
        c["warm2"] = gen.warm_ops(rng) + ["boot"]
        c["np"] = gen.pick(rng, ["int32", "int64", "uint32", "uint16", "int8"])
        c["bits"] = sorted(set([gen.ri(rng, 8, 31), gen.ri(rng, 8, 31), gen.ri(rng, 0, 31)]))
        c["mode"] = "process" if i % (16 if tier == "quick" else 40) == 0 else "here"
        out.append(c)
    return out


def nontrivial(c):
    return True


def pic(r):
    return [snap.snap(r.sims_data.reset_index(drop=True)), snap.snap(r.reserve_dist.reset_index(drop=True)), snap.snap(r.summary)]


def digest(r):
    d = r.sims_data
    return [float(np.nansum(d[k].values.astype(float) * (1 + np.arange(len(d))))) for k in ("resid", "final_incr", "ultimate")]


CHILD = """
import sys, json
sys.path.insert(0, {root!r})
import numpy as np, warnings
warnings.simplefilter("ignore")
from lib import work, core
from props import c24
c = json.load(sys.stdin)
np.random.seed(c["g"][3])
t = work.build(c, core.Mon("C24"))
r = t.boot_cl(sims=c["sims"], parametric=c["parametric"], random_state=c["rs"])
print(json.dumps(c24.digest(r)))
"""


def run(c, mon):
    t = work.build(c, mon)
    kw = dict(sims=c["sims"], parametric=c["parametric"])
    def go(tri, rs, **k):
        a = dict(kw)
        a.update(k)
        if rs != "omit":
            a["random_state"] = rs
        return mon.call("boot_cl", tri.boot_cl, **a)
    def gstate():
        s = np.random.get_state()
        return (s[1].tolist(), s[2], s[3], s[4])
    np.random.seed(c["g"][0])
    g0 = gstate()
    r1 = go(t, c["rs"])
    mon.check("global-untouched", gstate() == g0, "a seeded bootstrap changes numpy's global generator")
    boots.usable(r1, work.cumobs(t), mon)
    p1 = pic(r1)
    def eq(kind, r, what):
        p = pic(r)
        mon.check(kind, snap.same(p1, p), "{}: {}", what, "" if snap.same(p1, p) else snap.diff(p1, p))
    # again, after other activity and from another global state
    np.random.seed(c["g"][1])
    gen.warm(t, c["warm2"], mon)
    np.random.rand(c["g"][2] % 17)
    eq("seeded", go(t, c["rs"]), "same seed after other requests")
    t2 = gen.build(c, mon, gen.presentation(None, plain=True), c["route"], "cum") if c["pres"].get("fields", ["origin", "dev", "value"]) else t
    if np.array_equal(t2.values, t.values, equal_nan=True):
        np.random.seed(c["g"][2])
        eq("seeded", go(t2, c["rs"]), "same seed on another triangle with the same data")
    # numpy integers are integers
    ty = getattr(np, c["np"])
    v = c["rs"] % (np.iinfo(ty).max + 1)
    a, b = go(t, int(v)), go(t, ty(v))
    mon.check("seeded", snap.same(pic(a), pic(b)), "seed {} as {} differs from the plain integer", v, c["np"])
    # another number of replicates does not inherit anything from the previous run
    go(t, c["rs"], sims=c["sims"] + 1)
    go(t, c["rs"], parametric=not c["parametric"])
    eq("seeded", go(t, c["rs"]), "same seed after other bootstraps")
    other = go(t, c["rs"] + 1)
    def draws(r):
        return np.append(r.sims_data["resid"].values.astype(float), r.sims_data["final_incr"].values.astype(float))
    def differ(kind, x, y, what):
        dx, dy = draws(x), draws(y)
        mon.check(kind, not np.array_equal(dx, dy, equal_nan=True), what)
    differ("different", r1, other, "two seeds give the same simulations")
    fx, fo = (r.sims_data.loc[r.sims_data.rectype == "forecast", "final_incr"].values for r in (r1, other))
    mon.check("different", not np.array_equal(fx, fo) or not np.any(fx), "two seeds give the same process error")
    rx, ro = (r.sims_data.loc[r.sims_data.rectype == "actual", "resid"].values for r in (r1, other))
    mon.check("different", not np.array_equal(rx, ro), "two seeds draw the same residuals")
    # seeds anywhere in the range of a generator's seeds are told apart
    far = [c["rs"] ^ (1 << k) for k in c["bits"]] + [2 ** 32 - 1 - c["rs"] % 7]
    seen = [(c["rs"], draws(r1))]
    for s in far:
        d = draws(go(t, s))
        for s0, d0 in seen:
            mon.check("different", s == s0 or not np.array_equal(d0, d, equal_nan=True), "seeds {} and {} give the same simulations", s0, s)
        seen.append((s, d))
    # a generator in a given state
    A, B = np.random.RandomState(c["g"][1]), np.random.RandomState(c["g"][1])
    s0 = A.get_state()
    np.random.seed(c["g"][3])
    g1 = gstate()
    ra = go(t, A)
    mon.check("global-untouched", gstate() == g1, "a bootstrap with a RandomState changes numpy's global generator")
    mon.check("advanced", A.get_state()[2] != s0[2] or not np.array_equal(A.get_state()[1], s0[1]), "the RandomState is not advanced")
    np.random.seed(c["g"][0])
    rb = go(t, B)
    mon.check("state", snap.same(pic(ra), pic(rb)), "equal RandomStates give different simulations")
    sa, sb = A.get_state(), B.get_state()
    mon.check("state", np.array_equal(sa[1], sb[1]) and sa[2:] == sb[2:], "equal RandomStates end in different states")
    ra2 = go(t, A)
    differ("advanced", ra, ra2, "a RandomState used again repeats the simulations")
    # a state reached through draws
    C, D = np.random.RandomState(5), np.random.RandomState(5)
    for z in (C, D):
        z.normal(size=3)
        z.rand(c["g"][0] % 5)
    mon.check("state", snap.same(pic(go(t, C)), pic(go(t2 if np.array_equal(t2.values, t.values, equal_nan=True) else t, D))), "equal advanced RandomStates give different simulations")
    # numpy's global generator
    for rs in (None, "omit"):
        np.random.seed(c["g"][2])
        x = go(t, rs)
        mid = gstate()
        y = go(t, rs)
        np.random.seed(c["g"][2])
        h0 = gstate()
        x2 = go(t, rs)
        mon.check("global", snap.same(pic(x), pic(x2)), "numpy.random.seed does not reproduce the simulations")
        mon.check("global", gstate() == mid and mid != h0, "the global generator ends in different states")
        differ("global", x, y, "consecutive unseeded bootstraps are identical")
        np.random.seed(c["g"][2] + 1)
        differ("global", x, go(t, rs), "unseeded bootstraps ignore numpy's global generator")
    if c["mode"] == "process":
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for hs in ("1", "77"):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            out = subprocess.run([sys.executable, "-c", CHILD.format(root=root)], input=json.dumps(c), env=env,
                                 capture_output=True, text=True, timeout=200)
            mon.check("process", out.returncode == 0, "run in another process failed: {}", out.stderr[-400:])
            d = json.loads(out.stdout.strip().splitlines()[-1])
            mon.check("process", d == digest(r1), "simulations in another process differ: {} {}", d, digest(r1))
