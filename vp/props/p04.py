"""P04: histograms account for every value exactly once."""
from fractions import Fraction

import numpy as np
import pandas as pd

from dataprofiler.profilers import histogram_utils as HU

from ..run import Harness
from .util import cells, column, num_options, odd_cells, put, scaled_column, values
from dataprofiler.profilers import FloatColumn, IntColumn, TextColumn

ASSUMPTIONS = [
    "bin counts: user-set, or (auto methods) the width estimators are replaced by an arbitrary "
    "symbolic suggestion 1..3 and min_histogram_bin is lowered to 2, so the code is checked for "
    "any suggestion",
]
CLS = {"float": FloatColumn, "int": IntColumn, "text": TextColumn}


def hist_column(kind, bins, quantiles=4, on=(), modes=None):
    o = num_options(kind, on=("histogram_and_quantiles",) + on)
    o.histogram_and_quantiles.num_quantiles = quantiles
    if modes is not None:
        o.mode.top_k_modes = modes
    if bins is not None:
        o.histogram_and_quantiles.bin_count_or_method = bins
    c = CLS[kind]("c", o)
    if not isinstance(bins, int):
        c.min_histogram_bin = 2
    return c


def suggestions(ctx, fn):
    """run fn with every bin-count estimator returning an arbitrary small count"""
    o1, o2 = HU._get_bin_edges, HU._calculate_bins_from_profile
    seen = {}

    def sug(name):
        if name not in seen:
            seen[name] = ctx.choose("suggest_%d" % len(seen), 3) + 1
        return seen[name]

    HU._get_bin_edges = lambda a, bins, *r: (None, sug("e" + str(bins)))
    HU._calculate_bins_from_profile = lambda p, m: sug("p" + str(m))
    try:
        return fn()
    finally:
        HU._get_bin_edges, HU._calculate_bins_from_profile = o1, o2


def check_hist(ctx, h, xs, tag=""):
    counts, edges = h["bin_counts"], h["bin_edges"]
    if counts is None or edges is None:
        ctx.fail(tag + "histogram missing")
        return
    counts, edges = list(counts), list(edges)
    ctx.check(tag + "one more edge than bins", len(edges) == len(counts) + 1)
    ctx.check_eq(tag + "first edge is the minimum", edges[0], ctx.min(xs))
    ctx.check_eq(tag + "last edge is the maximum", edges[-1], ctx.max(xs))
    for i in range(len(counts)):
        ctx.check_le(tag + "edges ordered", edges[i], edges[i + 1])
        ctx.check_le(tag + "count not negative", 0, counts[i])
    ctx.check_eq(tag + "counts add up", ctx.sum(counts), len(xs))


def exact_counts(ctx, h, xs, tag=""):
    """one batch: every bin holds exactly the values inside it"""
    counts, edges = list(h["bin_counts"]), list(h["bin_edges"])
    n = len(counts)
    if len(edges) != n + 1 or bool(ctx.all([x == xs[0] for x in xs])):
        return
    for i in range(n):
        inside = [ctx.all([x >= edges[i], (x < edges[i + 1]) if i < n - 1 else x <= edges[i + 1]])
                  for x in xs]
        ctx.check_eq(tag + "bin holds its values", counts[i], ctx.count(inside))


def updates(ctx, kind, sizes, bins):
    def go():
        c = hist_column(kind, bins)
        xs = []
        for b, n in enumerate(sizes):
            v = values(ctx, kind, "x%d_" % b, n, 50)
            ctx.spread(v, Fraction(1, 4))
            c.update(cells(ctx, kind, v))
            xs += v
        ctx.spread(xs, Fraction(1, 4))
        if not xs:
            return
        h = c._stored_histogram["histogram"]
        check_hist(ctx, h, xs, "stored ")
        if len([s for s in sizes if s]) == 1:
            exact_counts(ctx, h, xs, "stored ")
        p = c._get_best_histogram_for_profile()
        check_hist(ctx, p, xs, "reported ")

    suggestions(ctx, go)


def merges(ctx, kind, sizes, bins, after=0):
    def go():
        m, xs = None, []
        for b, n in enumerate(sizes):
            c = hist_column(kind, bins)
            v = values(ctx, kind, "x%d_" % b, n, 50)
            if n:
                c.update(cells(ctx, kind, v))
            xs += v
            if m is None:
                m = c
            else:
                t = type(m).__init__

                def small(self, *a, **k):
                    t(self, *a, **k)
                    put(self, min_histogram_bin=2)

                type(m).__init__ = small
                try:
                    m = m + c
                finally:
                    type(m).__init__ = t
        ctx.spread(xs, Fraction(1, 4))
        check_hist(ctx, m._stored_histogram["histogram"], xs, "merged ")
        check_hist(ctx, m._get_best_histogram_for_profile(), xs, "merged report ")
        if after:
            v = values(ctx, kind, "y", after, 50)
            m.update(cells(ctx, kind, v))
            xs += v
            ctx.spread(xs, Fraction(1, 4))
            check_hist(ctx, m._stored_histogram["histogram"], xs, "updated after merge ")
            check_hist(ctx, m._get_best_histogram_for_profile(), xs, "report after merge+update ")

    suggestions(ctx, go)


def rebin(ctx, nfrom, nto, isfloat=True, outer=False, widths=None):
    """_regenerate_histogram: symbolic edges, counts 0..4: mass kept, only moved to overlapping bins"""
    c = hist_column("float" if isfloat else "int", 2)
    edges = [ctx.real("e0", -20, 20) if isfloat else ctx.int("e0", -20, 20, relaxed=True)]
    for i in range(nfrom):
        w = ctx.pick("w%d" % i, widths) if widths else ctx.real("w%d" % i, 0, 10)
        edges.append(edges[-1] + w)
    if not isfloat:
        # integer histograms have equal-width bins between integers
        hi = ctx.int("hi", -20, 20, relaxed=True)
        ctx.assume(hi > edges[0])
        lo = edges[0]
        edges = [lo + (hi - lo) * i / nfrom for i in range(nfrom + 1)]
    ctx.assume(edges[-1] > edges[0])
    counts = [ctx.choose("n%d" % i, 4) for i in range(nfrom)]
    opt = None
    if outer:
        lo, hi = edges[0] - ctx.real("dl", 0, 5), edges[-1] + ctx.real("dh", 0, 5)
        opt = {"min_edge": lo, "max_edge": hi}
    h, loss = c._regenerate_histogram(
        entity_count_per_bin=ctx.array(counts), bin_edges=ctx.array(edges),
        suggested_bin_count=nto, is_float_histogram=isfloat, options=opt)
    new, ne = list(h["bin_counts"]), list(h["bin_edges"])
    ctx.check("shape", len(new) == nto and len(ne) == nto + 1)
    ctx.check_eq("mass kept", ctx.sum(new), sum(counts))
    ctx.check_eq("first edge", ne[0], opt["min_edge"] if outer else edges[0])
    ctx.check_eq("last edge", ne[-1], opt["max_edge"] if outer else edges[-1])
    ctx.check_le("loss not negative", 0, loss)
    # locality: the mass in the first k new bins is at least the mass of the old bins that end
    # before their upper edge and at most that of the old bins that start before it
    if isfloat:
        for k in range(1, nto):
            got = ctx.sum(new[:k])
            lo = ctx.sum([ctx.ite(edges[i + 1] < ne[k], counts[i], 0) for i in range(nfrom)])
            hi = ctx.sum([ctx.ite(edges[i] < ne[k], counts[i], 0) for i in range(nfrom)])
            ctx.check_le("no mass moves right past its bin", lo, got)
            ctx.check_le("no mass moves left past its bin", got, hi)


def infinite(ctx, sizes, bins, after=0, merge=True):
    """infinities are left out of the histogram, every other value is in it"""
    m, xs = None, []
    for b, n in enumerate(sizes):
        cs, v = odd_cells(ctx, "x%d_" % b, n, ("1", "4", "-2", "inf", "-inf"))
        if m is None or merge:
            c = hist_column("float", bins)
        c.update(pd.Series(cs))
        m = m + c if merge and m is not None else c
        xs += v
    if after:
        cs, v = odd_cells(ctx, "y", after, ("1", "4", "-2", "inf", "-inf"))
        m.update(pd.Series(cs))
        xs += v
    xs = [x for x in xs if abs(x) < 10]
    ctx.assume(xs)
    check_hist(ctx, m._stored_histogram["histogram"], xs)
    check_hist(ctx, m._get_best_histogram_for_profile(), xs, "report ")
    for q in list(m.quantiles):
        ctx.check("quantiles within the range", min(xs) <= q <= max(xs))


def scales(ctx, sizes, bins, merge=False):
    """very small and very large numbers"""
    m, us, s = scaled_column(ctx, sizes, lambda: hist_column("float", bins), merge)
    for tag, h in (("", m._stored_histogram["histogram"]),
                   ("report ", m._get_best_histogram_for_profile())):
        check_hist(ctx, dict(bin_counts=h["bin_counts"],
                             bin_edges=[e / s for e in h["bin_edges"]]), us, tag)


def many(ctx, kind, n, bins, merge=False):
    """thousands of values in one bin"""
    xs = [ctx.pick("x%d" % i, [0, 1, 7]) for i in range(2)]
    first = [xs[0]] * n + [xs[1]]
    more = [ctx.pick("more", [0, 3, 9])]
    c, d = hist_column(kind, bins), hist_column(kind, bins)
    c.update(pd.Series([str(x) for x in first], dtype=object))
    if merge:
        d.update(pd.Series([str(x) for x in more], dtype=object))
        c = c + d
    else:
        c.update(pd.Series([str(x) for x in more], dtype=object))
    check_hist(ctx, c.profile["histogram"], first + more)


F, I, T = "float", "int", "text"
HARNESSES = [
    Harness(many, quick=[dict(kind=F, n=7000, bins=3), dict(kind=I, n=7000, bins=2),
                         dict(kind=F, n=7000, bins=2, merge=True)],
            thorough=[dict(kind=F, n=70000, bins=3), dict(kind=I, n=70000, bins=2, merge=True)],
            bounds="7000 equal values (thorough 70000) and two others, picked from three each"),
    Harness(scales, quick=[dict(sizes=[2], bins=2), dict(sizes=[2, 1], bins=3),
                           dict(sizes=[2], bins=["auto"]), dict(sizes=[2, 1], bins=2, merge=True)],
            thorough=[dict(sizes=[2, 2], bins=b, merge=m) for b in (3, ["auto"])
                      for m in (False, True)],
            bounds="values 1, 4, -2, 0 times 1e-9, 1e-3, 1e7 or 1e15, up to 3 (thorough 4) cells"),
    Harness(updates, stubs=["histogram_utils._get_bin_edges -> arbitrary count (auto methods)"],
            quick=[dict(kind=F, sizes=s, bins=b) for s, b in (
                ([1], 2), ([2], 3), ([3], 2), ([3], 3), ([1, 1], 2), ([2, 1], 2), ([1, 2], 3),
                ([2, 0, 1], 2), ([4], 2))] +
            [dict(kind=I, sizes=s, bins=b) for s, b in (([2], 3), ([2, 1], 2), ([1, 1], 3))] +
            [dict(kind=T, sizes=s, bins=b) for s, b in (([2], 2), ([1, 1], 2))] +
            [dict(kind=F, sizes=[2], bins=["auto"]), dict(kind=F, sizes=[3], bins="rice"),
             dict(kind=I, sizes=[1, 1], bins=["fd", "sqrt"])],
            thorough=[dict(kind=k, sizes=s, bins=b) for k in (F, I, T)
                      for s in ([3], [2, 2], [1, 2, 1], [4], [1, 3], [3, 1]) for b in (1, 2, 4)] +
            [dict(kind=k, sizes=s, bins=None) for k in (F, I) for s in ([2], [2, 1])],
            bounds="up to 4 values in up to 3 batches, 2-4 bins"),
    Harness(merges, stubs=["histogram_utils._calculate_bins_from_profile -> arbitrary count"],
            quick=[dict(kind=F, sizes=s, bins=b, after=a) for s, b, a in (
                ([1, 1], 2, 0), ([2, 1], 2, 0), ([1, 2], 3, 0), ([2, 0], 2, 1), ([0, 2], 2, 1),
                ([1, 1], 2, 1), ([2, 2], 2, 0))] +
            [dict(kind=F, sizes=[1, 1], bins=["sqrt"], after=1),
             dict(kind=F, sizes=[0, 2], bins=["sqrt"], after=1),
             dict(kind=I, sizes=[1, 1], bins=2, after=1), dict(kind=I, sizes=[2, 1], bins=3)],
            thorough=[dict(kind=k, sizes=s, bins=b, after=a) for k in (F, I, T)
                      for b in (1, 2, 3, ["auto"])
                      for s, a in (([2, 2], 0), ([2, 1], 1), ([0, 2], 1), ([2, 0], 1),
                                   ([1, 1, 1], 0), ([3, 1], 0))],
            bounds="2-3 operands of up to 2 values, 2-3 bins, then one more update"),
    Harness(rebin,
            quick=[dict(nfrom=a, nto=b) for a, b in ((1, 2), (2, 1), (2, 3), (2, 2))] +
            [dict(nfrom=2, nto=2, outer=True, widths=(0, 1, 3)), dict(nfrom=2, nto=3, isfloat=False)],
            thorough=[dict(nfrom=a, nto=b, outer=o) for o in (False, True) for a, b in
                      ((3, 2), (2, 2), (2, 4), (3, 3), (4, 2), (3, 4), (4, 3))] +
            [dict(nfrom=a, nto=b, isfloat=False) for a, b in ((3, 2), (2, 4), (3, 3))],
            bounds="histograms of 1-2 bins with any edges and counts 0..3 re-binned to 1-3 bins "
            "(thorough: 4)"),
    Harness(infinite,
            quick=[dict(sizes=[2], bins=2), dict(sizes=[2, 1], bins=2, merge=False),
                   dict(sizes=[1, 1], bins=["auto"], merge=False),
                   dict(sizes=[2, 1], bins=["auto"]), dict(sizes=[1, 2], bins=2),
                   dict(sizes=[2, 1], bins=["doane", "scott"]),
                   dict(sizes=[1, 1], bins=2, after=1)],
            thorough=[dict(sizes=[3], bins=3), dict(sizes=[2, 2], bins=2),
                      dict(sizes=[2, 2], bins=None), dict(sizes=[1, 1], bins=["fd"], after=2)],
            bounds="up to 3 cells (thorough 4) among two infinities and three numbers"),
]
