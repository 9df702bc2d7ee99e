"""C40: settings of the process do not alter answers, and requests do not alter them."""
import contextlib
import decimal
import gc
import hashlib
import json
import locale
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
import numpy as np
import pandas as pd
import trikit
from lib import gen, work, snap, asks

RULE = ("Random triangles and 4-8 requests each (every property, average, estimate, test, simulation, printed form, load, refusal "
        "and exhibit), answered under pandas' default settings and again, from construction on, under randomly drawn settings of "
        "pandas (copy-on-write, chained assignment, display), numpy (ignored or warned floating point conditions, printing, seed "
        "of the global generator), decimal, warnings, matplotlib and the environment; "
        "answers are compared and the settings read back after each request; in some cases another interpreter (optimised, "
        "other locale, directory, umask, home or hash seed) answers, or imports the library; non-trivial: a copying, "
        "chained-assignment or floating point setting away from its default.")
MUST = ["answer", "untouched", "process", "import", "exhibit", "refused"]
ASSUMPTIONS = ["floating point conditions and warnings turned into exceptions are not decided",
               "exhibits may leave matplotlib's settings changed (what they draw later is C33's); devp_corr_test draws from numpy's generator"]

_FORMATS = {None: None, 1: "{:.1f}".format, 3: "${:,.3f}".format}
PLOTS = ["combined", "faceted", "base", "mack", "diagnostics", "boot", "hist"]
SETS = ["raa", "ta83", "autoliab", "glre"]


def settings(rng):
    fp = lambda: gen.pick(rng, ["ignore", "warn"])
    return dict(
        cow=bool(rng.rand() < .6), chained=gen.pick(rng, ["raise", "raise", "warn", None]),
        ff=gen.pick(rng, [None, 1, 3]), seq=gen.ri(rng, 2, 99), border=gen.ri(rng, 0, 5), rows=gen.ri(rng, 1, 80), cols=gen.ri(rng, 0, 30), prec=gen.ri(rng, 1, 12), width=gen.ri(rng, 20, 200),
        err=[fp(), fp(), fp(), fp()], np=[gen.ri(rng, 0, 17), gen.ri(rng, 3, 2000), gen.ri(rng, 20, 200), bool(rng.rand() < .5)],
        seed=gen.ri(rng, 0, 10 ** 6), dec=gen.ri(rng, 3, 50), filt="filter {}".format(gen.ri(rng, 0, 10 ** 6)),
        filters=gen.pick(rng, ["ignore", "always", "once", "default"]), dpi=gen.ri(rng, 30, 90), env=str(gen.ri(rng, 0, 10 ** 6)))


def cases(rng, tier):
    k = 90 if tier == "quick" else 1500
    out = []
    for i in range(k):
        c = work.est_case(rng, n=gen.pick(rng, [4, 5, 6, 7]), style=gen.pick(rng, ["smooth", "wild", "integer", "smooth"]), warm=bool(rng.rand() < .3))
        c["excl"] = work.exclusions(rng, c["n"]) if rng.rand() < .4 else []
        c["excl"] = [e for e in c["excl"] if e[0] != c["n"] - 2 - e[1] and e[0] != 0][:3]
        c["how"] = gen.pick(rng, ["setter", "at", "mixed"])
        c["asks"] = [asks.rand_ask(rng, c["n"]) for _ in range(gen.ri(rng, 4, 8))]
        c["more"] = [["load", gen.pick(rng, SETS), gen.pick(rng, [None, "cum", "incr"])], ["bad", gen.ri(rng, 0, 6)]]
        c["plots"] = [PLOTS[i % 7], gen.pick(rng, PLOTS)] if i % 3 else []
        c["set"] = settings(rng)
        c["process"] = [gen.pick(rng, ["", "-O", "-OO", "-X dev"]), gen.pick(rng, ["C", "C.UTF-8", "POSIX", ""]), gen.pick(rng, ["0", "1"]), gen.pick(rng, ["UTC", "Asia/Tokyo", "America/New_York"]), bool(rng.rand() < .5), str(gen.ri(rng, 0, 1000))] if i % 10 == 5 else None
        if c["process"]:
            c["more"] += [["bad", j] for j in range(7)]
        c["import"] = bool(i % 45 == 7)
        out.append(c)
    return out


def nontrivial(c):
    s = c["set"]
    return s["cow"] or s["chained"] != "warn" or set(s["err"]) != {"warn"}


@contextlib.contextmanager
def under(s):
    """The drawn settings, in a directory of their own."""
    import matplotlib
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif_c40_")
    np0, r0 = np.random.get_state(), random.getstate()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opts = ["mode.copy_on_write", s["cow"], "mode.chained_assignment", s["chained"],
                    "display.max_rows", s["rows"], "display.max_columns", s["cols"], "display.precision", s["prec"], "display.width", s["width"],
                    "display.float_format", _FORMATS[s["ff"]], "display.max_seq_items", s["seq"], "display.html.border", s["border"], "styler.format.precision", s["seq"] % 9]
            with pd.option_context(*opts), np.errstate(divide=s["err"][0], over=s["err"][1], under=s["err"][2], invalid=s["err"][3]), \
                    np.printoptions(precision=s["np"][0], threshold=s["np"][1], linewidth=s["np"][2], suppress=s["np"][3]), \
                    decimal.localcontext() as dc, matplotlib.rc_context({"figure.dpi": s["dpi"]}):
                dc.prec = s["dec"]
                warnings.simplefilter(s["filters"], UserWarning)
                warnings.filterwarnings("ignore", message=s["filt"])
                warnings.showwarning = _silent
                os.environ["VERIF_C40"] = s["env"]
                np.random.seed(s["seed"])
                random.seed(s["seed"])
                os.chdir(d)
                yield
    finally:
        os.chdir(here)
        os.environ.pop("VERIF_C40", None)
        np.random.set_state(np0)
        random.setstate(r0)
        shutil.rmtree(d, ignore_errors=True)


def _silent(*a, **k):
    pass


def process():
    """Settings and resources of the process that no request has business with."""
    import matplotlib
    import matplotlib.pyplot as plt
    opts = pd._config.config._registered_options
    st = np.random.get_state()
    return {
        "pandas options": {k: pd._config.config._get_single_key(k, True) and pd._config.config.get_option(k, silent=True) for k in opts},
        "numpy error handling": (np.geterr(), np.geterrcall()),
        "numpy print options": np.get_printoptions(),
        "numpy random state": (st[0], st[1].tobytes()) + tuple(st[2:]),
        "random state": random.getstate(),
        "warning filters": list(warnings.filters),
        "warning display": (warnings.showwarning, warnings.formatwarning),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "environment": dict(os.environ),
        "directory": os.getcwd(),
        "files": sorted(os.listdir(".")),
        "open files": _fds(),
        "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "hooks": (sys.excepthook, sys.displayhook, sys.stdout, sys.stderr, sys.gettrace(), sys.getprofile()),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "threads": threading.active_count(),
        "matplotlib settings": dict(matplotlib.rcParams.copy()),
        "figures": plt.get_fignums(),
        "classes": {(k, a): id(v) for k in (pd.DataFrame, pd.Series, pd.Index) for a, v in list(vars(k).items()) if callable(v)},
    }


def _fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if p.startswith("/") and not p.startswith(("/dev/", "/proc/")):
            out[p] = out.get(p, 0) + 1
    return out


def untouched(mon, what, a, b, but=()):
    for k in a:
        if k in but:
            continue
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = [(x, a[k].get(x), b[k].get(x)) for x in list(a[k]) + [y for y in b[k] if y not in a[k]] if a[k].get(x) != b[k].get(x)][:3]
            else:
                d = "{!r:.150} -> {!r:.150}".format(a[k], b[k])
            mon.check("untouched", False, "{} changed {}: {}", what, k, d)
    mon.seen("decided:untouched")


def build(c, mon):
    t = work.build(c, mon)
    work.exclude(t, c, c["excl"], how=c["how"])
    return t


def refused(t, k):
    """An invalid request: the kind of refusal."""
    try:
        if k == 0:
            t.base_cl(sel="nope")
        elif k == 1:
            t.diagonal(10 ** 6)
        elif k == 2:
            t.mack_cl(dist="nope")
        elif k == 3:
            t.boot_cl(sims=3, random_state=1, procdist="nope")
        elif k == 4:
            trikit.totri(t, data_shape="nope")
        elif k == 5:
            t.base_cl(sel=[1.] * (t.shape[1] + 2))
        else:
            t.mack_cl(q=1.5)
    except Exception as e:
        return type(e).__name__
    return "accepted"


def drawn(t, kind, n):
    """Everything in the figure an exhibit leaves behind."""
    import matplotlib.pyplot as plt
    plt.close("all")
    if kind in ("combined", "faceted"):
        t.plot(display=kind)
    elif kind == "base":
        t.base_cl().plot()
    elif kind == "mack":
        t.mack_cl().plot()
    elif kind == "diagnostics":
        t.mack_cl().diagnostics()
    else:
        r = t.boot_cl(sims=30, random_state=3)
        r.plot() if kind == "boot" else r.hist()
    out = []
    for ax in plt.gcf().axes:
        out.append([ax.get_title(), [x.get_text() for x in ax.texts],
                    [(str(l.get_label()), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines],
                    [(float(p.get_x()), float(p.get_height())) for p in ax.patches if hasattr(p, "get_height")],
                    [x.get_text() for x in ax.get_xticklabels()] if kind in ("boot", "base") else []])
    plt.close("all")
    return snap.snap(out)


def answer(t, a, mon, c):
    if a[0] == "load":
        x = trikit.load(a[1], tri_type=a[2])
        return snap.snap(x)
    if a[0] == "bad":
        return refused(t, a[1])
    return asks.ask(t, a, mon)


def flat(x):
    """Text of a snapshot, amounts to ten digits."""
    if isinstance(x, np.ndarray):
        return "[" + ",".join(flat(v) for v in x.ravel().tolist()) + "]"
    if isinstance(x, float):
        return "%.9e" % (x + 0.)
    if isinstance(x, tuple) and x[:1] == ("~",):
        return "~"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(flat(v) for v in x) + ")"
    if isinstance(x, dict):
        return "{" + ",".join(flat(k) + ":" + flat(v) for k, v in x.items()) + "}"
    return repr(x)


def digests(c):
    """What another process computes for the case."""
    t = build(c, None)
    return [hashlib.sha1(flat(answer(t, a, None, c)).encode()).hexdigest() for a in c["asks"] + c["more"]]


CHILD = """
import sys, json, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, {root!r})
import matplotlib
matplotlib.use("Agg")
from props import c40
print(json.dumps(c40.digests(json.loads(sys.stdin.read()))))
"""

IMPORT = """
import sys, json, warnings, importlib
warnings.simplefilter("ignore")
sys.path.insert(0, {root!r})
import matplotlib
matplotlib.use("Agg")
names = json.loads(sys.stdin.read())
if not names:
    import trikit
    print(json.dumps([m for m in list(sys.modules) if m.split(".")[0] != "trikit"]))
else:
    for m in names:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    c = {{}}
    src = open({path!r}).read()
    src = src.replace("\\nimport trikit\\n", "\\n").replace("\\nfrom lib import gen, work, snap, asks\\n", "\\n")
    exec(compile(src, "c40", "exec"), c)
    import numpy, pandas, matplotlib.pyplot, decimal
    numpy.seterr(divide="ignore", over="ignore", under="warn", invalid="warn")
    numpy.set_printoptions(precision=5, linewidth=77)
    pandas.set_option("display.max_rows", 17, "display.max_columns", 9, "display.precision", 4, "display.width", 99, "mode.chained_assignment", "raise")
    numpy.random.seed(5)
    decimal.getcontext().prec = 11
    matplotlib.rcParams["figure.dpi"] = 61
    warnings.filterwarnings("error", message="zzz")
    a = c["process"]()
    import trikit
    b = c["process"]()
    out = []
    for k in a:
        if a[k] != b[k]:
            out.append(k + ": " + repr(a[k])[:150] + " -> " + repr(b[k])[:150])
    print(json.dumps(out))
"""


def child(code, text, env=None, args=(), cwd=None):
    return subprocess.run([sys.executable, *args, "-c", code], input=text, env=env, cwd=cwd, capture_output=True, text=True, timeout=200)


def run(c, mon):
    import matplotlib.pyplot as plt
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    n = c["n"]
    A = c["asks"] + c["more"]
    t = build(c, mon)
    ref = [answer(t, a, mon, c) for a in A]
    pic = [mon.call("exhibit", drawn, t, k, n) for k in c["plots"]]
    tri = snap.snap(t)
    plt.close("all")
    with under(c["set"]):
        gc.collect()
        p0 = process()
        u = build(c, mon)
        p1 = process()
        untouched(mon, "construction", p0, p1, but=["numpy random state"] if c["warm"] else [])
        mon.check("answer", snap.same(snap.snap(u), tri), "the triangle differs under {}: {}", c["set"], snap.diff(tri, snap.snap(u)))
        for a, e in zip(A, ref):
            g = mon.call("request", answer, u, a, mon, c)
            gc.collect()
            p2 = process()
            untouched(mon, "request {}".format(a), p1, p2, but=["numpy random state"] if a[0] == "mack" else [])
            p1 = p2
            mon.check("answer", snap.same(e, g, 1e-9), "{} under {}: {}", a, c["set"], snap.diff(e, g, tol=1e-9))
            if a[0] == "bad":
                mon.check("refused", g != "accepted", "invalid request {} accepted", a[1])
        for k, e in zip(c["plots"], pic):
            g = mon.call("exhibit", drawn, u, k, n)
            gc.collect()
            p2 = process()
            untouched(mon, "exhibit {}".format(k), p1, p2, but=["matplotlib settings"] + (["open files"]))
            p1 = p2
            mon.check("exhibit", snap.same(e, g, 1e-9), "exhibit {} under {}: {}", k, c["set"], snap.diff(e, g, tol=1e-9))
        mon.seen("settings-read-back", len(p0))
    if c["process"]:
        opt, loc, utf, tz, home, hs = c["process"]
        env = dict(os.environ, PYTHONHASHSEED=hs, TZ=tz, PYTHONUTF8=utf, PYTHONCOERCECLOCALE="0", MPLBACKEND="Agg")
        for k in ("LANG", "LC_ALL", "LC_NUMERIC"):
            env.pop(k, None)
        if loc:
            env["LC_ALL"] = loc
        d = tempfile.mkdtemp(prefix="verif_c40_")
        try:
            if home:
                env["HOME"] = d
            out = child(CHILD.format(root=root), json.dumps(c), env, opt.split(), d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        mon.check("process", out.returncode == 0, "answers in another process failed ({}): {}", c["process"], out.stderr[-500:])
        got = json.loads(out.stdout.strip().splitlines()[-1])
        want = [hashlib.sha1(flat(x).encode()).hexdigest() for x in ref]
        for a, x, y in zip(A, want, got):
            mon.check("process", x == y, "{} differs in a process of settings {}", a, c["process"])
    if c["import"]:
        code = IMPORT.format(root=root, path=os.path.abspath(__file__))
        out = child(code, "[]")
        if out.returncode:
            mon.check("import", False, "import failed: {}", out.stderr[-400:])
        out = child(code, out.stdout.strip().splitlines()[-1])
        mon.check("import", out.returncode == 0, "import failed: {}", out.stderr[-400:])
        bad = json.loads(out.stdout.strip().splitlines()[-1])
        mon.check("import", not bad, "importing trikit changes {}", bad)
