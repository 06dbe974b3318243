"""P35: graphs show what the profile holds."""
import warnings

import matplotlib
import matplotlib.patches
import numpy as np
import pandas as pd

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

from dataprofiler.profilers.profile_builder import StructuredColProfiler  # noqa: E402
from dataprofiler.reports import graphs as G  # noqa: E402

from ..run import Harness  # noqa: E402
from . import sutil, util  # noqa: E402

ASSUMPTIONS = [
    "`blocks`: the row numbers of the nulls are any different numbers up to 100000, in any order; "
    "the axes and rectangles of matplotlib are recorded there and real ones are used in replays "
    "and in the other harnesses, whose cells are solver choices from a list",
]


class Rect:
    def __init__(self, xy, width, height, **kw):
        self.x, self.y, self.w, self.h = xy[0], xy[1], width, height
        self.label = kw.get("label") or ""


class Axes:
    """records what is drawn"""

    def __init__(self):
        self.drawn = []
        self.figure = self

    def add_patch(self, p):
        self.drawn.append(p)
        return p

    def get_legend_handles_labels(self):
        h = [p for p in self.drawn if p.label]
        return h, [p.label for p in h]

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: None


def drawn(ax):
    """(x from, x to, y from, y to, label) of everything drawn on axes"""
    if isinstance(ax, Axes):
        return [(p.x, p.x + p.w, p.y, p.y + p.h, p.label) for p in ax.drawn]
    out = []
    for p in ax.patches:
        b = p.get_path().transformed(p.get_patch_transform()).get_extents()
        out.append((b.x0, b.x1, b.y0, b.y1, p.get_label()))
    for c in ax.collections:
        for q in c.get_paths():
            b = q.get_extents()
            out.append((b.x0, b.x1, b.y0, b.y1, c.get_label()))
    return out


def check_marks(ctx, ax, cols):
    """cols: per column the number of rows and {null type: rows}"""
    todo = drawn(ax)
    eps = 1e-6
    for k, (size, types) in enumerate(cols):
        mine = [d for d in todo if d[0] > k - 0.001 and d[1] < k + 1.001]
        todo = [d for d in todo if d not in mine]
        back = [d for d in mine if not d[4].startswith('"')]
        ctx.check("one background bar", len(back) == 1)
        ctx.check_eq("bar of the rows starts at the first", back[0][2], -0.5)
        ctx.check_eq("bar of the rows ends at the last", back[0][3], size - 0.5)
        ctx.check("types drawn", sorted({d[4] for d in mine if d not in back})
                  == sorted('"%s"' % t for t in types))
        for t, rows in types.items():
            r = [d for d in mine if d[4] == '"%s"' % t]
            for row in rows:
                ctx.check_eq("a null row is marked once", ctx.count(
                    [ctx.all([ctx.min([d[2], d[3]]) <= row - 0.5 + eps,
                              ctx.max([d[2], d[3]]) >= row + 0.5 - eps]) for d in r]), 1)
            ctx.check_eq("no other row is marked",
                         ctx.sum([ctx.abs(d[3] - d[2]) for d in r]), len(rows))
    ctx.check("nothing else is drawn", not todo)


def blocks(ctx, counts, order=None):
    """nulls at any rows; counts: per column {type: number of nulls}"""
    profs, cols = [], []
    for k, types in enumerate(counts):
        size = ctx.int("size%d" % k, 1, 100000, relaxed=True)
        null = {}
        for t, n in types.items():
            rows = [ctx.int("row%d_%s_%d" % (k, t or "blank", i), 0, 100000) for i in range(n)]
            for a in range(n):
                for b in range(a):
                    ctx.assume(rows[a] < rows[b] if order else rows[a] != rows[b])
            null[t] = rows
        c = StructuredColProfiler()
        util.put(c, name="c%d" % k, sample_size=size, null_types_index=dict(null))
        profs.append(c)
        cols.append((size, null))
    ax = Axes() if ctx.symbolic else plt.figure().add_subplot(111)
    old = matplotlib.patches.Rectangle
    if ctx.symbolic:
        matplotlib.patches.Rectangle = Rect
    try:
        G.plot_col_missing_values(profs, ax=ax)
    finally:
        matplotlib.patches.Rectangle = old
        plt.close("all")
    check_marks(ctx, ax, cols)


CELLS = ["1", "", "nan", "7"]


def matrix(ctx, shape, title=None):
    """whole profile with nulls anywhere, real axes"""
    rows, cols = shape
    names = ["b", "A", "c d"][:cols]
    data = {n: [ctx.pick("cell%d_%d" % (i, r), CELLS[:3]) for r in range(rows)]
            for i, n in enumerate(names)}
    p = sutil.profiler(sutil.options(), pd.DataFrame(data))
    try:
        fig = G.plot_missing_values_matrix(p, title=title)
        ax = fig.axes[0]
        ctx.check("one graph", len(fig.axes) == 1)
        ctx.check("column names", [t.get_text() for t in ax.get_xticklabels()]
                  == ['"%s"' % n for n in names])
        ctx.check("names below their bars", all(
            i < x < i + 1 for i, x in enumerate(ax.get_xticks())))
        ctx.check("title", ax.get_title() == (title or ""))
        check_marks(ctx, ax, [
            (rows, {t: [r for r in range(rows) if data[n][r] == t]
                    for t in ("", "nan") if t in data[n]}) for n in names])
        legend = [t.get_text() for t in ax.get_legend().get_texts()]
        ctx.check("legend", sorted(legend) == sorted(
            '"%s"' % t for t in ("", "nan") if any(t in data[n] for n in names)))
        shown = {t.get_text(): h.get_facecolor()
                 for t, h in zip(ax.get_legend().get_texts(), ax.get_legend().legend_handles)}
        ctx.check("colours", all(q.get_facecolor() == shown[q.get_label()]
                                 for q in ax.patches if q.get_label() in shown))
        ctx.check("different colours", len(set(shown.values())) == len(shown))
    finally:
        plt.close("all")


KINDS = {"int": ["1", "2", "4"], "float": ["1.5", "2.25", "-3.5"], "text": ["ab", "c", "dd"],
         "same": ["5", "5", "5"]}


def histograms(ctx, kinds, by, twins=False):
    """histogram graphs of the columns asked for; twins: columns sharing names"""
    names = (["b", "Aa", "B", "b"] if twins else ["b", "Aa", "c d", "e"])[:len(kinds)]
    kinds = [ctx.pick("kind%d" % i, k) if isinstance(k, list) else k
             for i, k in enumerate(kinds)]
    p = sutil.profiler(sutil.options(on=("int", "float", "text", "hist")),
                       pd.DataFrame([list(r) for r in zip(*[KINDS[k] for k in kinds])],
                                    columns=names))
    k = len(names)
    want, kw = list(range(k)), {}
    if by != "all":
        n = ctx.choose("asked", k) + 1
        asked = []
        for i in range(n):
            left = [x for x in range(k) if x not in asked]
            asked.append(left[ctx.choose("ask%d" % i, len(left))])
        want = sorted(asked)
        if by == "names":
            up = ctx.pick("upper", [False, True])
            if twins:
                # a name stands for all columns of that name, and is asked for once
                asked = [i for j, i in enumerate(asked)
                         if names[i].lower() not in [names[x].lower() for x in asked[:j]]]
                want = [i for i in range(k)
                        if names[i].lower() in [names[x].lower() for x in asked]]
            kw["column_names"] = [names[i].upper() if up else names[i] for i in asked]
        else:
            kw["column_inds"] = list(asked)
    want = [i for i in want if kinds[i] != "text"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fig = G.plot_histograms(p, **kw)
        if not want:
            ctx.check("nothing to draw", fig is None)
            return
        ctx.check("graphs drawn", fig is not None)
        axes = [a for a in fig.axes if a.axison]
        ctx.check("graphs in the order of the columns",
                  [a.get_title() for a in axes] == [names[i] for i in want])
        rep = p.report()["data_stats"]
        for a, i in zip(axes, want):
            h = rep[i]["statistics"]["histogram"]
            bars = [(float(b.get_x()), float(b.get_x() + b.get_width()), float(b.get_height()))
                    for b in a.patches if b.get_height()]
            edges = [float(x) for x in h["bin_edges"]]
            full = [(edges[j], edges[j + 1], float(c))
                    for j, c in enumerate(h["bin_counts"]) if c]
            ctx.check("bars are the bins", len(bars) == len(full)
                      and np.allclose(np.array(bars), np.array(full)))
    finally:
        plt.close("all")


def refused(ctx):
    """selections that make no sense"""
    cols = {"b": ["1", "2"], "A": ["3", "5"]}
    p = sutil.profiler(sutil.options(on=("int", "float", "text", "hist")), pd.DataFrame(
        {k: cols[k] for k in ctx.pick("columns", ["bA", "b"])}))
    kw = ctx.pick("selection", [
        dict(column_names=["b"], column_inds=[0]), dict(column_names=["x"]),
        dict(column_names=["b", "x"]), dict(column_names="b"), dict(column_inds=["b"]),
        dict(column_names=[1]), dict(column_inds=0)])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            G.plot_histograms(p, **kw)
        ctx.check("refused", False)
    except ValueError:
        ctx.check("refused", True)
    finally:
        plt.close("all")


HARNESSES = [
    Harness(blocks,
            quick=[dict(counts=[{"": n}]) for n in (1, 2, 3)]
            + [dict(counts=[{"": n}], order="down") for n in (4, 5)]
            + [dict(counts=[{"": 2, "nan": 1}, {"nan": 2}], order="down"), dict(counts=[{}, {"": 2}, {}])],
            thorough=[dict(counts=[{"": 4}]), dict(counts=[{"": 7}], order="down"), dict(counts=[{"": 3, "nan": 3}]),
                      dict(counts=[{"": 3}, {"nan": 3, "": 1}])],
            bounds="up to 5 (thorough 7) nulls of one type, 3 columns, any rows up to 100000"),
    Harness(matrix,
            quick=[dict(shape=[4, 1]), dict(shape=[2, 2], title="T")],
            thorough=[dict(shape=[6, 1]), dict(shape=[3, 2]), dict(shape=[1, 3])],
            bounds="4 x 1 and 2 x 2 cells (thorough up to 6 rows, 3 columns)"),
    Harness(histograms,
            quick=[dict(kinds=["int", "text", "float", "same"], by=b)
                   for b in ("all", "names", "inds")]
            + [dict(kinds=[["int", "text", "same"], ["float", "text"]], by="all")]
            + [dict(kinds=["int", "float", ["same", "text"], "int"], by="names", twins=True)],
            thorough=[dict(kinds=[["int", "text", "same"]] * 3, by=b)
                      for b in ("all", "names", "inds")],
            bounds="4 columns, every selection by name or position in any order"),
    Harness(refused, quick=[dict()], thorough=[dict()], bounds="7 selections"),
]
