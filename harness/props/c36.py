"""C36: analyses of different triangles may run concurrently."""
import sys
import threading
import numpy as np
import trikit
from lib import gen, work, snap, asks
from lib.core import Mon, Violated

RULE = ("Three to six analyses (construction from a shared or own table, exclusions, 3-6 random requests each, loads of "
        "sample data) run first one after the other and then in as many threads released together, under switch "
        "intervals from 10 microseconds on, with forced switches between lines of the library's functions; in every third case "
        "all threads put the same requests (and seeds) to triangles of the same size and meet in ten of the functions called, "
        "which they run through line by line; every answer is "
        "compared; non-trivial: at least two threads whose library calls overlapped in time.")
MUST = ["answer", "overlap", "own", "source"]
ASSUMPTIONS = ["each triangle and result is used by one thread; plots (matplotlib's global state) and draws from numpy's "
               "global generator are not made concurrently"]


def cases(rng, tier):
    k = 40 if tier == "quick" else 700
    out = []
    for i in range(k):
        m = gen.ri(rng, 3, 6)
        shared = bool(rng.rand() < .4)
        A = []
        base = work.est_case(rng, n=gen.pick(rng, [4, 5, 6]), style=gen.pick(rng, ["smooth", "wild", "integer"]), warm=False)
        base["route"] = "tab_incr"
        alike = bool(i % 3 == 0)          # the same requests at the same time for triangles of the same size
        same = [asks.rand_ask(rng, base["n"], boot=True) for _ in range(3)] + [["boot", gen.ri(rng, 1, 99), gen.ri(rng, 2, 6), .75, False, False, .5]]
        for j in range(m):
            c = dict(base) if shared else work.est_case(rng, n=base["n"] if alike else gen.pick(rng, [4, 5, 6]), style=gen.pick(rng, ["smooth", "wild", "integer"]), warm=False)
            c["excl"] = work.exclusions(rng, c["n"]) if rng.rand() < .6 else []
            c["excl"] = [e for e in c["excl"] if e[0] != c["n"] - 2 - e[1] and e[0] != 0][:3]
            c["asks"] = [asks.rand_ask(rng, c["n"], boot=True) for _ in range(gen.ri(rng, 3, 6))]
            if alike:
                c["asks"] = same
                c["excl"] = [] if shared else c["excl"]
            c["load"] = [gen.pick(rng, ["raa", "ta83", "autoliab", "glre"]), gen.pick(rng, [None, "cum", "incr"])] if rng.rand() < .3 else None
            A.append(c)
        out.append({"analyses": A, "shared": shared, "hot": 10 if alike else gen.pick(rng, [0, 3]), "switch": gen.pick(rng, [1e-5, 1e-4, 1e-3]), "yield": gen.ri(rng, 2, 40), "seed": gen.ri(rng, 0, 10 ** 6)})
    return out


def nontrivial(c):
    return len(c["analyses"]) > 1


def analyse(c, df, own):
    """One user's analysis; every answer as a snapshot."""
    pres = c["pres"]
    out = []
    if df is not None:
        o, d, v = pres["fields"]
        t = trikit.totri(df, origin=o, dev=d, value=v)
    else:
        t = gen.build(c, None, pres, c["route"], "cum")
    for i, j in c["excl"]:
        t.a2aind = (c["origins"][i], c["devs"][j], 0)
    for a in c["asks"]:
        out.append(asks.ask(t, a, None))
    if c["load"]:
        x = trikit.load(c["load"][0], tri_type=c["load"][1])
        out.append(snap.snap(x))
    out.append(snap.snap(t))
    out.append(snap.snap(t.a2aind))
    own.append(t)
    return out


class Switcher:
    """Yields the processor at pseudo-random lines of the library in this thread, and logs its calls.

    In the functions of `hot`, threads first wait for each other (for a moment) and then yield at every line."""

    def __init__(self, seed, every, log, name, hot=(), met=None):
        self.r, self.every, self.log, self.name = np.random.RandomState(seed), every, log, name
        self.left, self.yields, self.budget = 1, 0, 400
        self.hot, self.met, self.entered = set(hot), met, {}

    def __call__(self, frame, event, arg):
        if event == "call" and "/trikit/" in frame.f_code.co_filename:
            fn = frame.f_code.co_name
            self.log.append((self.name, fn))
            if fn in self.hot and self.budget > 0:
                self.meet(fn)
                return self.hotline
            return self.line
        return None

    def meet(self, fn):
        k = self.entered[fn] = self.entered.get(fn, 0) + 1
        if k > 6:
            return
        with self.met["lock"]:
            self.met[fn, k] = self.met.get((fn, k), 0) + 1
            if self.met[fn, k] >= 2:
                self.met["lock"].notify_all()
            else:
                self.met["lock"].wait_for(lambda: self.met[fn, k] >= 2, 0.03)

    def hotline(self, frame, event, arg):
        if self.budget <= 0:
            return self.line
        self.budget -= 1
        self.yields += 1
        threading.Event().wait(self.r.rand() * 0.001)
        return self.hotline

    def line(self, frame, event, arg):
        self.left -= 1
        if self.left <= 0:
            self.left = self.r.randint(1, 2 * self.every)
            self.yields += 1
            threading.Event().wait(0.0003)
        return self.line


def run(c, mon):
    A = c["analyses"]
    df = gen.records(A[0], A[0]["pres"]) if c["shared"] else None
    df0 = snap.snap(df) if df is not None else None
    want, own0 = [], []
    m = len(A)
    alone = Switcher(0, 10 ** 9, [], 0)      # notes the functions called
    for k, a in enumerate(A):
        if k == 0:
            sys.settrace(lambda *z: alone(*z) and None)
        try:
            want.append(mon.call("sequential", analyse, a, df, own0))
        finally:
            sys.settrace(None)
    names = sorted({f for _, f in alone.log})
    hot = [names[i] for i in np.random.RandomState(c["seed"]).permutation(len(names))[:c["hot"]]]
    mon.seen("functions-interleaved-line-by-line", len(hot))
    got, err, log, own = [None] * m, [None] * m, [], [[] for _ in range(m)]
    tracers, met = [None] * m, {"lock": threading.Condition()}
    gate = threading.Barrier(m)

    def body(k):
        try:
            gate.wait(30)
            tracers[k] = Switcher(c["seed"] + k, c["yield"], log, k, hot, met)
            sys.settrace(tracers[k])
            got[k] = analyse(A[k], df, own[k])
        except BaseException as e:
            err[k] = e
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(c["switch"])
    try:
        T = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(m)]
        for x in T:
            x.start()
        for x in T:
            x.join(200)
    finally:
        sys.setswitchinterval(old)
    mon.check("answer", not any(x.is_alive() for x in T), "threads did not finish")
    switches = sum(1 for a, b in zip(log, log[1:]) if a[0] != b[0])
    mon.seen("library-calls", len(log))
    mon.seen("switches-between-threads", switches)
    mon.seen("forced-switches", sum(x.yields for x in tracers if x))
    mon.seen("switch-points", len({(a[1], b[1]) for a, b in zip(log, log[1:]) if a[0] != b[0]}))
    if switches >= m:
        mon.seen("decided:overlap")
    for k in range(m):
        if err[k] is not None:
            raise Violated("[answer] thread {} raised {}: {}".format(k, type(err[k]).__name__, err[k]))
        for j, (x, y) in enumerate(zip(want[k], got[k])):
            what = A[k]["asks"][j] if j < len(A[k]["asks"]) else "final state"
            mon.check("answer", snap.same(x, y, 1e-12), "thread {}, {} (alone -> concurrent): {}", k, what, snap.diff(x, y, tol=1e-12))
    # afterwards each triangle still answers as one that was analysed alone
    for k in range(m):
        for a in (["prop", "latest"], ["avgs"], ["base", "all-weighted", 1.]):
            x, y = asks.ask(own0[k], a, mon), asks.ask(own[k][0], a, mon)
            mon.check("own", snap.same(x, y, 1e-12), "{} afterwards: {}", a, snap.diff(x, y, tol=1e-12))
    if df is not None:
        mon.check("source", snap.same(df0, snap.snap(df)), "shared data changed: {}", snap.diff(df0, snap.snap(df)))
