"""C33: exhibits are shown or written as asked, in the requested style, without touching the data."""
import os
import re
import shutil
import tempfile
import warnings
import numpy as np
from lib import gen, work, plots
from lib.cmp import same

RULE = ("Random complete triangles of 4-6 origins; each of the seven exhibits drawn on screen or to a file (png / svg / "
        "pdf, str or Path, repeatedly), once with defaults and once with random styling (colours, styles, contexts, "
        "columns, hue_kws of right and wrong lengths, keyword overrides); calls of plt.show, files, warnings, artists and "
        "a figure of the caller's own "
        "are observed; non-trivial: at least one styling option.")
MUST = ["shown", "written", "colour", "style", "override", "ignored", "data", "columns", "leak", "own"]
ASSUMPTIONS = ["the screen is a stand-in for plt.show that counts its calls"]

COLORS = ["#AA0011", "#00BB22", "#1133CC", "#778899", "#FFEE00", "red", "black", "steelblue"]
STYLES = ["darkgrid", "whitegrid", "dark", "white", "ticks"]
CONTEXTS = ["notebook", "paper", "talk", "poster"]
OPTIONS = {"axes_style": STYLES, "context": CONTEXTS, "alpha": [.2, .5, 1.], "marker": ["s", "^", "D"],
           "hue": ["none", "right", "right", "wrong", "mixed", "longer"], "cmap": ["viridis", "hsv", "rainbow", "plasma"],
           "ext": ["png", "svg", "pdf", "svg"], "aspath": [True, False], "first": ["file", "screen"]}
EXHIBITS = ["combined", "faceted", "base", "mack", "diag", "boot", "hist"]


def cases(rng, tier):
    k = 49 if tier == "quick" else 700
    out, off = [], {}
    for i in range(k):
        c = work.est_case(rng, n=gen.pick(rng, [4, 4, 5, 5, 6]), style=gen.pick(rng, ["smooth", "wild", "integer"]), scale=float(gen.pick(rng, [1., 1e3])), warm=False)
        c["what"] = EXHIBITS[i % len(EXHIBITS)]
        c["col"] = [gen.pick(rng, COLORS) for _ in range(3)]
        j = i // len(EXHIBITS)            # every exhibit meets every option
        for key, values in OPTIONS.items():
            if j == 0:
                off[key, c["what"]] = [values[int(x)] for x in rng.permutation(len(values))]
            c[key] = off[key, c["what"]][j % len(values)]
        c["nums"] = [gen.pick(rng, [.5, 1., 2.5]), gen.pick(rng, [3, 4.5, 9])]
        c["col_wrap"] = gen.pick(rng, [2, 3, 4, 5])
        out.append(c)
    return out


def nontrivial(c):
    return True


def rgba(col, alpha=None):
    import matplotlib.colors as mc
    return mc.to_rgba(col, alpha)


def close(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), atol=2 / 255.)


class Screen:
    """Stand-in for the screen: counts what is shown."""

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.plt, self.show, self.n = plt, plt.show, 0
        plt.close("all")
        own = plt.figure(figsize=(2, 2))
        own.add_axes([0, 0, 1, 1]).plot([1, 2, 3], [2, 5, 1], label="own")
        self.own = own
        self.was = self.look()

        def show(*a, **k):
            self.n += 1
        plt.show = show
        return self

    def look(self):
        ax = self.own.axes
        return (len(ax), [(l.get_label(), list(l.get_ydata()), l.get_color()) for l in ax[0].lines], ax[0].get_xlim(), ax[0].get_facecolor(),
                tuple(self.own.get_size_inches()), [str(t.get_text()) for t in ax[0].texts], len(ax[0].collections)) if ax else ()

    def verify(self, mon, what):
        """A figure the caller has open stays open and as it was."""
        mon.check("own", self.plt.fignum_exists(self.own.number), "{} closes the caller's figure", what)
        mon.check("own", self.look() == self.was, "{} alters the caller's figure: {} -> {}", what, self.was, self.look())
        self.plt.close(self.own)

    def __exit__(self, *a):
        self.plt.show = self.show


def content(fig):
    """What the figure draws, without its styling."""
    out = []
    for ax in plots.axes(fig):
        out.append(([[l.get_xdata().tolist() if hasattr(l.get_xdata(), "tolist") else list(l.get_xdata()),
                      l.get_ydata().tolist() if hasattr(l.get_ydata(), "tolist") else list(l.get_ydata())] for l in ax.lines],
                    sorted(t for t in plots.texts(ax)), len(ax.patches), [np.asarray(k.get_offsets()).tolist() for k in ax.collections]))
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [x]


def same_content(mon, a, b, what):
    A, B = flat(a), flat(b)
    ok = len(A) == len(B) and all((u == v) or (isinstance(u, float) and isinstance(v, (int, float)) and (abs(u - v) <= 1e-9 * max(abs(u), abs(v)) or (u != u and v != v))) for u, v in zip(A, B))
    mon.check("data", ok, "{}: drawn content differs: {:.300} / {:.300}", what, str(a), str(b))
    mon.seen("drawn-values", len(A))


def named(ax, label):
    return [l for l in ax.lines if str(l.get_label()) == label]


def run(c, mon):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import seaborn as sns
    from pathlib import Path
    n, w = c["n"], c["what"]
    t = work.build(c, mon)
    O = c["origins"]
    kw, hue = {}, {}
    if w == "combined":
        draw, kw = t.plot, dict(cmap=c["cmap"], linewidth=c["nums"][0], markersize=c["nums"][1], linestyle="--", figsize=(6, 5))
        base = {}
    elif w == "faceted":
        draw, base = t.plot, dict(display="faceted")
        kw = dict(color=c["col"][0], axes_style=c["axes_style"], context=c["context"], col_wrap=c["col_wrap"], marker=c["marker"],
                  markersize=c["nums"][1], linewidth=c["nums"][0])
    elif w == "base":
        draw, base = mon.call("base_cl", t.base_cl, tail=1.05).plot, {}
        kw = dict(actuals_color=c["col"][0], forecasts_color=c["col"][1], axes_style=c["axes_style"], context=c["context"], col_wrap=c["col_wrap"],
                  marker=c["marker"], linewidth=c["nums"][0])
        hue = {"right": dict(markersize=[4, 11], linestyle=[":", "--"]), "wrong": dict(markersize=[4, 11, 5]), "mixed": dict(markersize=[4, 11], linestyle=[":"]), "longer": dict(markersize=[4, 11, 5, 6])}
    elif w == "mack":
        draw, base = mon.call("mack_cl", t.mack_cl).plot, {}
        kw = dict(dist_color=c["col"][0], q_color=c["col"][1], axes_style=c["axes_style"], context=c["context"], col_wrap=c["col_wrap"])
    elif w == "diag":
        draw, base = mon.call("mack_cl", t.mack_cl).diagnostics, {}
        kw = dict(cmap=c["cmap"], linewidth=c["nums"][0], markersize=c["nums"][1], linestyle="--", figsize=(8, 7))
    else:
        r = mon.call("boot_cl", t.boot_cl, sims=30, random_state=7)
        base = {}
        if w == "boot":
            draw = r.plot
            kw = dict(actuals_color=c["col"][0], forecasts_color=c["col"][1], fill_color=c["col"][2], fill_alpha=c["alpha"],
                      axes_style=c["axes_style"], context=c["context"], col_wrap=c["col_wrap"], marker=c["marker"], linewidth=c["nums"][0])
            hue = {"right": dict(markersize=[4, 11, 1, 1], linestyle=[":", "--", "-", "-"]), "wrong": dict(markersize=[4, 11]),
                   "mixed": dict(markersize=[4, 11, 1, 1], linestyle=[":", "--"]), "longer": dict(markersize=[4, 11, 1, 1, 9], linestyle=[":", "--", "-", "-", ":"])}
        else:
            draw = r.hist
            kw = dict(color=c["col"][0], axes_style=c["axes_style"], context=c["context"], col_wrap=c["col_wrap"], edgecolor=c["col"][1], linewidth=c["nums"][0])
    H = hue.get(c["hue"])
    files = w in ("base", "mack", "boot", "hist")
    facets = w in ("faceted", "base", "mack", "boot", "hist")
    tmp = tempfile.mkdtemp(prefix="c33_")
    face0 = mpl.rcParams["axes.facecolor"]
    fonttype = mpl.rcParams["svg.fonttype"]
    mpl.rcParams["svg.fonttype"] = "none"
    try:
        def screen(**k):
            with Screen() as s, warnings.catch_warnings(record=True) as wlog:
                warnings.simplefilter("always")
                mon.call("shown", draw, **dict(base, **k))
            mon.check("shown", s.n == 1, "{} shown {} times", w, s.n)
            s.verify(mon, w)
            mon.check("shown", len(plt.get_fignums()) == 1, "{} figures", len(plt.get_fignums()))
            mon.check("shown", os.listdir(tmp) == [] or files, "unexpected files {}", os.listdir(tmp))
            return plt.gcf(), [str(x.message) for x in wlog]

        def tofile(name, **k):
            path = os.path.join(tmp, name)
            with Screen() as s:
                mon.call("written", draw, exhibit_path=Path(path) if c["aspath"] else path, **dict(base, **k))
                s.verify(mon, w)
                mon.check("written", s.n == 0, "{} shown although a path was given", w)
                mon.check("written", os.path.isfile(path), "no exhibit at the given path, only {}", os.listdir(tmp))
                data = open(path, "rb").read()
                magic = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[c["ext"]]
                mon.check("written", len(data) > 2000 and data.startswith(magic), "{} bytes starting with {!r}", len(data), data[:8])
                if c["ext"] == "svg":
                    txt = set(re.findall(r">([^<>]+)</(?:text|tspan)>", data.decode()))
                    need = {str(o) for o in O} if w == "boot" else {"total"} | {str(o) for o in O[1:]}
                    mon.check("written", need <= txt, "the file lacks the labels {}", sorted(need - txt))
                    mon.seen("svg-texts", len(txt))
            return data

        if files and c["first"] == "file":
            tofile("a." + c["ext"])
        fig0, w0 = screen()
        d0 = content(fig0)
        if facets:
            style0 = sns.axes_style("darkgrid")["axes.facecolor"]
            mon.check("style", all(close(rgba(style0), ax.get_facecolor()) for ax in plots.axes(fig0)), "default style of {} not applied", w)
        plain = None
        if w in ("base", "boot"):
            plain = [[(l.get_markersize(), l.get_linestyle()) for l in ax.lines] for ax in plots.axes(fig0)]
        if H is not None:
            before = {k: list(v) for k, v in H.items()}
            fig, wl = screen(hue_kws=H)
            same_content(mon, d0, content(fig), "hue_kws")
            said = [m for m in wl if "hue_kws" in m]
            now = [[(l.get_markersize(), l.get_linestyle()) for l in ax.lines] for ax in plots.axes(fig)]
            if c["hue"] == "right":
                mon.check("override", not said, "hue_kws of the right length: {}", said)
                for ax in plots.axes(fig):
                    for lab, ms, ls in (("forecast", 4, ":"), ("actual", 11, "--")):
                        for l in named(ax, lab):
                            mon.check("override", l.get_markersize() == ms and l.get_linestyle() == ls, "hue_kws: {} line has size {}, style {}", lab, l.get_markersize(), l.get_linestyle())
            else:
                mon.check("ignored", len(said) >= 1, "hue_kws of the wrong length: no warning")
                mon.check("ignored", now == plain, "hue_kws of the wrong length not ignored: {}", now)
            mon.check("data", H == before, "hue_kws altered")
        # styled
        sk = dict(kw)
        fig, wl = screen(**sk)
        if w != "hist":
            same_content(mon, d0, content(fig), "styling {}".format(sk))
        AX = plots.axes(fig)
        col = c["col"]
        if facets:
            face = sns.axes_style(c["axes_style"])["axes.facecolor"]
            mon.check("style", all(close(rgba(face), ax.get_facecolor()) for ax in AX), "axes_style {} not applied", c["axes_style"])
            lab = float(sns.plotting_context(c["context"])["axes.labelsize"])
            mon.check("style", all(abs(ax.xaxis.label.get_fontsize() - lab) < 1e-6 for ax in AX), "context {} not applied: {}", c["context"], [ax.xaxis.label.get_fontsize() for ax in AX])
            xs = len({round(ax.get_position().x0, 4) for ax in AX})
            mon.check("columns", xs == min(c["col_wrap"], len(AX)), "{} columns, expected {}", xs, c["col_wrap"])
        if w == "combined":
            cols = [rgba(l.get_color()) for l in AX[0].lines]
            pal = plt.get_cmap(c["cmap"])(np.linspace(0, 1, 256))
            mon.check("colour", all(min(np.abs(pal - np.asarray(v)).max(axis=1)) < .02 for v in cols), "line colours {} are not of {}", cols, c["cmap"])
            mon.check("colour", len({tuple(np.round(v, 3)) for v in cols}) >= (n if c["cmap"] != "hsv" else n - 1), "origins share a colour: {}", cols)
            for l in AX[0].lines:
                mon.check("style", l.get_linewidth() == c["nums"][0] and l.get_markersize() == c["nums"][1] and l.get_linestyle() == "--", "line drawn with {} {} {}", l.get_linewidth(), l.get_markersize(), l.get_linestyle())
        elif w == "diag":
            ls = [l for ax in AX for l in ax.lines if str(l.get_label()) in [str(o) for o in O]]
            mon.check("style", len(ls) == n, "{} development paths", len(ls))
            for l in ls:
                mon.check("style", l.get_linewidth() == c["nums"][0] and l.get_markersize() == c["nums"][1] and l.get_linestyle() == "--", "path drawn with {} {} {}", l.get_linewidth(), l.get_markersize(), l.get_linestyle())
            mon.check("style", np.allclose(fig.get_size_inches(), (8, 7)), "figure of size {}", fig.get_size_inches())
        elif w == "faceted":
            for ax in AX:
                for l in ax.lines:
                    mon.check("colour", close(rgba(l.get_color()), rgba(col[0])), "line colour {}, asked {}", l.get_color(), col[0])
                    mon.check("override", l.get_marker() == c["marker"] and l.get_linewidth() == c["nums"][0] and l.get_markersize() == c["nums"][1], "line drawn with {} {} {}", l.get_marker(), l.get_linewidth(), l.get_markersize())
        elif w in ("base", "boot"):
            seen = 0
            for ax in AX:
                for lab, want in (("actual", col[0]), ("forecast", col[1])):
                    for l in named(ax, lab):
                        if not len(l.get_xdata()):
                            continue
                        seen += 1
                        mon.check("colour", close(rgba(l.get_markerfacecolor()), rgba(want)), "{} points filled with {}, asked {}", lab, l.get_markerfacecolor(), want)
                        mon.check("override", l.get_marker() == c["marker"] and l.get_linewidth() == c["nums"][0], "{} drawn with {} {}", lab, l.get_marker(), l.get_linewidth())
                if w == "boot":
                    polys = [k for k in ax.collections if len(k.get_paths())]
                    mon.check("colour", len(polys) == 1 and close(polys[0].get_facecolor()[0], rgba(col[2], c["alpha"])), "area filled with {}, asked {} {}", [k.get_facecolor() for k in polys], col[2], c["alpha"])
            mon.check("colour", seen >= 2 * n, "{} lines", seen)
        elif w == "mack":
            for ax in AX:
                for l in ax.lines:
                    want = col[1] if plots.is_ref(l) else col[0]
                    mon.check("colour", close(rgba(l.get_color()), rgba(want)), "{} drawn in {}, asked {}", "mark" if plots.is_ref(l) else "density", l.get_color(), want)
        elif w == "hist":
            for ax in AX:
                for p in ax.patches:
                    mon.check("colour", close(p.get_facecolor(), rgba(col[0])) and close(p.get_edgecolor(), rgba(col[1])), "bar filled {} edged {}, asked {} {}", p.get_facecolor(), p.get_edgecolor(), col[0], col[1])
                    mon.check("override", p.get_linewidth() == c["nums"][0], "bar line width {}", p.get_linewidth())
        if files:
            sk2 = dict(sk, hue_kws=H) if H is not None and c["hue"] == "right" else sk
            tofile("b." + c["ext"], **sk2)
            tofile("b." + c["ext"])
            mon.check("written", set(os.listdir(tmp)) <= {"a." + c["ext"], "b." + c["ext"]}, "files {}", os.listdir(tmp))
            fig, _ = screen()
            same_content(mon, d0, content(fig), "after exhibits were written")
        mon.check("leak", mpl.rcParams["axes.facecolor"] == face0, "axes style left behind: {}", mpl.rcParams["axes.facecolor"])
    finally:
        mpl.rcParams["svg.fonttype"] = fonttype
        shutil.rmtree(tmp, ignore_errors=True)
