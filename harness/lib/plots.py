"""What a plot drew: the artists of the figure left behind by the code under test."""
import re
import numpy as np


def draw(mon, kind, fn, *a, **k):
    """Run the plot with a stand-in for the screen; its figure."""
    import matplotlib.pyplot as plt
    plt.close("all")
    mon.call(kind, fn, *a, **k)
    mon.check(kind, len(plt.get_fignums()) == 1, "{} figures drawn", len(plt.get_fignums()))
    return plt.gcf()


def axes(fig):
    return [ax for ax in fig.axes if ax.get_visible()]


def texts(ax):
    return [t.get_text() for t in ax.texts]


def facets(mon, kind, fig, names):
    """{name: axes} by the origin each facet is annotated with."""
    out = {}
    order = []
    for ax in axes(fig):
        hit = [n for n in names if str(n) in texts(ax)]
        mon.check(kind, len(hit) == 1, "facet annotated with {}", texts(ax))
        mon.check(kind, hit[0] not in out, "two facets for {}", hit[0])
        out[hit[0]] = ax
        order.append(hit[0])
    mon.check(kind, set(out) == set(names), "facets for {}, expected {}", order, names)
    return out


def is_ref(l):
    """axvline or axhline: one coordinate counts in axes units."""
    if l.get_transform() is l.axes.transData:
        return False
    x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
    return len(x) == 2 and ((x[0] == x[1] and list(y) == [0, 1]) or (y[0] == y[1] and list(x) == [0, 1]))


def lines(ax):
    """{label: (x, y)} of curves holding points."""
    out = {}
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if len(x) and not is_ref(l):
            out.setdefault(str(l.get_label()), []).append((x, y))
    return out


def vlines(ax):
    return sorted(float(l.get_xdata()[0]) for l in ax.lines if is_ref(l) and l.get_xdata()[0] == l.get_xdata()[1])


def hlines(ax):
    return sorted(float(l.get_ydata()[0]) for l in ax.lines if is_ref(l) and l.get_xdata()[0] != l.get_xdata()[1])


def fits(mon, kind, ax, what):
    """Everything drawn lies within the axis limits."""
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    for l, xys in lines(ax).items():
        for x, y in xys:
            ok = ~(np.isnan(x) | np.isnan(y))
            if ok.any():
                e = 1e-9 * max(abs(y0), abs(y1))
                mon.check(kind, y.max(where=ok, initial=-np.inf) <= y1 + e and x.max(where=ok, initial=-np.inf) <= x1 + 1e-9 and x.min(where=ok, initial=np.inf) >= x0 - 1e-9
                          and (y.min(where=ok, initial=np.inf) >= y0 - e), "{}: {} drawn up to {}, {} but limits are x {} y {}", what, l, x.max(), y.max(), (x0, x1), (y0, y1))


def number(s):
    """The amount in an annotation such as "95th = 1,234"."""
    return float(re.sub(r"[^0-9.eE+-]", "", s.split("=")[1].replace(",", "")))
