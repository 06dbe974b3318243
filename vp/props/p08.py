"""P08: categorical counts and measures."""
from collections import Counter, defaultdict
from fractions import Fraction

from dataprofiler.profilers import categorical_column_profile as CC
from dataprofiler.profilers import profiler_options as PO
from dataprofiler.profilers.categorical_column_profile import CategoricalColumn

from ..run import Harness
from .util import put

ASSUMPTIONS = [
    "cells are the texts of symbolic integers, so any pattern of equal and different cells occurs",
    "the count-min sketch of the datasketches library is replaced by an exact counter",
]


class ExactSketch:
    """count-min sketch without collisions"""

    def __init__(self, hashes, buckets):
        assert hashes and buckets
        self.c = Counter()

    @staticmethod
    def suggest_num_hashes(c):
        return 4

    @staticmethod
    def suggest_num_buckets(e):
        return 64

    def update(self, v, n=1):
        self.c[v] = self.c.get(v, 0) + n

    def get_estimate(self, v):
        return self.c.get(v, 0)

    def merge(self, o):
        for k, n in o.c.items():
            self.update(k, n)


class Sketches:
    count_min_sketch = ExactSketch
    countminsketch = ExactSketch


def column(**kw):
    o = PO.CategoricalOptions()
    for k, v in kw.items():
        setattr(o, k, v)
    return CategoricalColumn("c", o)


def cats(ctx, tag, n, k):
    return ctx.ints(tag, n, 0, k - 1)


def same(ctx, key, x):
    return key.num == x if ctx.symbolic else str(key) == ctx.cell(x)


def distinct(ctx, xs):
    return ctx.count([ctx.not_(ctx.any([x == y for y in xs[:i]])) for i, x in enumerate(xs)])


def check_counts(ctx, col, xs, tag=""):
    n = len(xs)
    got = col.categorical_counts
    for key, cnt in got.items():
        ctx.check_eq(tag + "count of a category", cnt, ctx.count([same(ctx, key, x) for x in xs]))
        ctx.check(tag + "no category without cells", ctx.any([same(ctx, key, x) for x in xs]))
    d = distinct(ctx, xs)
    ctx.check_eq(tag + "number of categories", len(got), d)
    ctx.check_eq(tag + "sample size", col.sample_size, n)
    ctx.check_eq(tag + "unique count", col.unique_count, d)
    ctx.check_eq(tag + "unique ratio", col.unique_ratio * n, d)
    st = col.profile["statistics"]
    ctx.check_eq(tag + "reported unique count", st["unique_count"], d)
    ctx.check_eq(tag + "reported unique ratio", st["unique_ratio"] * n, d)
    if not n:
        ctx.check(tag + "measures without cells", st["unique_ratio"] == 0
                  and st["gini_impurity"] is None and st["unalikeability"] is None)
    elif bool(d <= 10):
        ctx.check(tag + "listed categories", list(st["categories"]) == list(got))
        ctx.check(tag + "listed counts", dict(st["categorical_count"]) == dict(got))
    if n:
        counts = [ctx.count([x == y for y in xs]) for x in xs]
        ctx.check_eq(tag + "gini impurity", st["gini_impurity"] * n * n,
                     ctx.sum([n - c for c in counts]))
        if n > 1:
            ctx.check_eq(tag + "unalikeability", st["unalikeability"] * n * (n - 1),
                         ctx.sum([n - c for c in counts]))
        else:
            ctx.check_eq(tag + "unalikeability", st["unalikeability"], 0)


def updates(ctx, sizes, k):
    col, seen = column(), []
    for b, n in enumerate(sizes):
        xs = cats(ctx, "b%d" % b, n, k)
        col.update(ctx.series(xs, text=True))
        seen += xs
        check_counts(ctx, col, seen)


def merges(ctx, sizes, k, after=0):
    acc, seen = None, []
    for b, n in enumerate(sizes):
        xs = cats(ctx, "b%d" % b, n, k)
        c = column()
        if n:
            c.update(ctx.series(xs, text=True))
        before = None if acc is None else dict(acc.categorical_counts)
        new = c if acc is None else acc + c
        if before is not None:
            ctx.check("operands unchanged", list(acc.categorical_counts.values())
                      == list(before.values()) and sum(c.categorical_counts.values()) == n)
        acc = new
        seen += xs
    check_counts(ctx, acc, seen, "merged ")
    if after:
        xs = cats(ctx, "a", after, k)
        acc.update(ctx.series(xs, text=True))
        check_counts(ctx, acc, seen + xs, "updated after merge ")


def twice(ctx, n, k):
    """a column merged with itself"""
    xs = cats(ctx, "b", n, k)
    c = column()
    c.update(ctx.series(xs, text=True))
    check_counts(ctx, c + c, xs + xs, "merged with itself ")
    check_counts(ctx, c, xs, "operand ")


def measures(ctx, k):
    """any counts of k categories"""
    col = column()
    n = ctx.ints("n", k, 1, 10**6, relaxed=True)
    put(col, _categories=defaultdict(int, {"k%d" % i: v for i, v in enumerate(n)}))
    tot = ctx.sum(n)
    col.sample_size = tot
    if k == 1:
        ctx.assume(tot > 1)
    ctx.check_eq("gini impurity", col.gini_impurity,
                 1 - ctx.sum([(v / tot) * (v / tot) for v in n]))
    ctx.check_eq("unalikeability", col.unalikeability,
                 (tot * tot - ctx.sum([v * v for v in n])) / (tot * tot - tot))
    ctx.check_eq("unique count", col.unique_count, k)
    ctx.check_eq("unique ratio", col.unique_ratio * tot, k)


def threshold(ctx, k):
    """categorical iff at most 10 distinct values or at most 20% of the cells are distinct"""
    col = column()
    n = ctx.int("n", k, 10000)
    put(col, _categories=defaultdict(int, {"k%d" % i: 1 for i in range(k)}))
    col.sample_size = n
    want = bool(True if k <= 10 else k * 5 <= n)
    ctx.check("is categorical", bool(col.is_match) == want)
    rep = col.profile
    ctx.check("reported as categorical", bool(rep["categorical"]) == want)
    for key in ("categories", "gini_impurity", "unalikeability", "categorical_count"):
        ctx.check("reported " + key, (key in rep["statistics"]) == want)


def check_stopped(ctx, col, d, n, tag=""):
    rep = col.profile
    st = rep["statistics"]
    ctx.check(tag + "stopped columns are not categorical", ctx.not_(rep["categorical"]))
    ctx.check_eq(tag + "reported unique count once stopped", st["unique_count"], d)
    ctx.check_eq(tag + "reported unique ratio once stopped", st["unique_ratio"] * n, d)
    ctx.check(tag + "no categories reported once stopped", not (
        {"categories", "categorical_count", "gini_impurity", "unalikeability"} & set(st)))


def stop(ctx, sizes, k):
    """profiling of categories stops once the stop condition is met, and stays stopped"""
    lim = ctx.int("lim", 1, 6)
    ratio = ctx.real("ratio", 0, 1)
    col = column(max_sample_size_to_check_stop_condition=lim,
                 stop_condition_unique_value_ratio=ratio)
    seen, frozen = [], None
    for b, n in enumerate(sizes):
        xs = cats(ctx, "b%d" % b, n, k)
        col.update(ctx.series(xs, text=True))
        if frozen is None:
            seen += xs
            d = len(set(seen)) if not ctx.symbolic else distinct(ctx, seen)
            if bool(ctx.all([len(seen) >= lim, d >= ratio * len(seen)])):
                frozen = d, len(seen)
            else:
                check_counts(ctx, col, seen)
        if frozen is not None:
            d, m = frozen
            ctx.check_eq("frozen unique count", col.unique_count, d)
            ctx.check_eq("frozen unique ratio", col.unique_ratio * m, d)
            ctx.check("not categorical once stopped", ctx.not_(col.is_match))
            ctx.check("no categories once stopped", len(col.categorical_counts) == 0)
            ctx.check_eq("sample size once stopped", col.sample_size, m)
            check_stopped(ctx, col, d, m)


def stop_merge(ctx, sizes, k):
    """both profiles with the same stop condition"""
    lim = ctx.int("lim", 1, 6)
    ratio = ctx.real("ratio", 0, 1)
    parts = []
    for b, n in enumerate(sizes):
        xs = cats(ctx, "b%d" % b, n, k)
        c = column(max_sample_size_to_check_stop_condition=lim,
                   stop_condition_unique_value_ratio=ratio)
        c.update(ctx.series(xs, text=True))
        d = distinct(ctx, xs)
        parts.append((c, xs, d, bool(ctx.all([n >= lim, d >= ratio * n]))))
    (c1, x1, d1, s1), (c2, x2, d2, s2) = parts
    m = c1 + c2
    if s1 or s2:
        d, n = (d1, len(x1)) if len(x1) > len(x2) else (d2, len(x2))
        ctx.check("not categorical once stopped", ctx.not_(m.is_match))
        if len(x1) != len(x2):
            ctx.check_eq("unique count of the larger profile", m.unique_count, d)
            ctx.check_eq("unique ratio of the larger profile", m.unique_ratio * n, d)
            check_stopped(ctx, m, d, n)
        return
    xs = x1 + x2
    d = distinct(ctx, xs)
    if bool(ctx.all([len(xs) >= lim, d >= ratio * len(xs)])):
        ctx.check_eq("unique count at stop", m.unique_count, d)
        ctx.check_eq("unique ratio at stop", m.unique_ratio * len(xs), d)
        check_stopped(ctx, m, d, len(xs))
        ctx.check("not categorical once stopped", ctx.not_(m.is_match))
    else:
        check_counts(ctx, m, xs, "merged ")
        m.update(ctx.series(["9"], text=True))
        d = distinct(ctx, xs + [9])
        stopped = ctx.all([len(xs) + 1 >= lim, d >= ratio * (len(xs) + 1)])
        ctx.check("stop condition survives the merge",
                  ctx.iff(stopped, len(m.categorical_counts) == 0))
        ctx.check_eq("unique count after merge and update", m.unique_count, d)


def top(ctx, sizes, k, top_k, merge=False):
    """the report lists the top_k most frequent categories"""
    seen, col = [], column(top_k_categories=top_k)
    for b, n in enumerate(sizes):
        xs = cats(ctx, "b%d" % b, n, k)
        if merge and b:
            o = column(top_k_categories=top_k)
            o.update(ctx.series(xs, text=True))
            col = col + o
        else:
            col.update(ctx.series(xs, text=True))
        seen += xs
    got = col.profile["statistics"]["categorical_count"]
    d = distinct(ctx, seen)
    ctx.check_eq("number of listed categories", len(got), ctx.min([top_k, d]))
    least = ctx.min(list(got.values()))
    for key, cnt in got.items():
        ctx.check_eq("listed count", cnt, ctx.count([same(ctx, key, x) for x in seen]))
    for x in seen:
        ctx.check("the most frequent ones are listed", ctx.any(
            [same(ctx, key, x) for key in got]
            + [ctx.count([x == y for y in seen]) <= least]))


def heavy(ctx, sizes, k, hitters, merge=False, after=0):
    """with the sketch: categories with at least n/hitters cells, with their exact counts"""
    def new():
        return column(cms=True, cms_max_num_heavy_hitters=hitters,
                      cms_confidence=0.95, cms_relative_error=0.01)

    seen = []
    old = CC.datasketches
    if ctx.symbolic:
        CC.datasketches = Sketches
    try:
        col = new()
        for b, n in enumerate(sizes):
            xs = cats(ctx, "b%d" % b, n, k)
            if merge and b:
                o = new()
                o.update(ctx.series(xs, text=True))
                col = col + o
            else:
                col.update(ctx.series(xs, text=True))
            seen += xs
        if after:
            xs = cats(ctx, "a", after, k)
            col.update(ctx.series(xs, text=True))
            seen += xs
        got = col.categorical_counts
        n = len(seen)
        for key, cnt in got.items():
            ctx.check_eq("count of a heavy hitter", cnt,
                         ctx.count([same(ctx, key, x) for x in seen]))
            ctx.check("only heavy hitters", cnt * hitters >= n)
        for x in seen:
            ctx.check("every heavy hitter", ctx.any(
                [same(ctx, key, x) for key in got]
                + [ctx.count([x == y for y in seen]) * hitters < n]))
    finally:
        CC.datasketches = old


HARNESSES = [
    Harness(updates, quick=[dict(sizes=[1], k=3), dict(sizes=[4], k=4), dict(sizes=[2, 2], k=4),
                            dict(sizes=[1, 2, 1], k=3), dict(sizes=[5], k=3)],
            thorough=[dict(sizes=[6], k=6), dict(sizes=[3, 3], k=6), dict(sizes=[2, 2, 2], k=4)],
            bounds="up to 5 cells (thorough 6) in up to 3 updates, any equal/different pattern"),
    Harness(twice, quick=[dict(n=2, k=2)], thorough=[dict(n=3, k=3)],
            bounds="columns of 2 (thorough 3) cells"),
    Harness(merges, quick=[dict(sizes=[2, 2], k=4), dict(sizes=[0, 2], k=3),
                           dict(sizes=[2, 0], k=3), dict(sizes=[1, 1, 1], k=3),
                           dict(sizes=[0, 0], k=3), dict(sizes=[2, 1], k=4, after=1)],
            thorough=[dict(sizes=[3, 3], k=6), dict(sizes=[2, 2, 2], k=4),
                      dict(sizes=[2, 2], k=4, after=2)],
            bounds="up to 3 profiles of up to 2 cells (thorough 3), then an update"),
    Harness(measures, quick=[dict(k=k) for k in (1, 2, 3, 4)],
            thorough=[dict(k=k) for k in (5, 6)],
            bounds="1-4 categories (thorough 6) with any counts up to 10^6"),
    Harness(threshold, quick=[dict(k=k) for k in (1, 9, 10, 11, 12, 20)],
            thorough=[dict(k=k) for k in (0, 2, 15, 50)],
            bounds="listed numbers of distinct values, any number of cells up to 10000"),
    Harness(stop, quick=[dict(sizes=[2], k=3), dict(sizes=[2, 1], k=3), dict(sizes=[1, 1, 2], k=3)],
            thorough=[dict(sizes=[3, 2], k=5), dict(sizes=[2, 2, 1], k=4)],
            bounds="any stop sample size 1-6 and ratio 0-1; up to 4 cells (thorough 5)"),
    Harness(stop_merge, quick=[dict(sizes=[1, 1], k=3), dict(sizes=[2, 1], k=3),
                               dict(sizes=[1, 2], k=3), dict(sizes=[2, 2], k=3)],
            thorough=[dict(sizes=[3, 2], k=4), dict(sizes=[2, 3], k=4)],
            bounds="two profiles of up to 2 cells (thorough 3) with one stop condition"),
    Harness(top, quick=[dict(sizes=[4], k=4, top_k=1), dict(sizes=[4], k=4, top_k=2),
                        dict(sizes=[2, 2], k=4, top_k=2, merge=True)],
            thorough=[dict(sizes=[5], k=5, top_k=2), dict(sizes=[3, 2], k=5, top_k=3, merge=True)],
            bounds="4 cells (thorough 5), top 1-2 (3) categories"),
    Harness(heavy, quick=[dict(sizes=[4], k=4, hitters=2), dict(sizes=[2, 2], k=3, hitters=2),
                          dict(sizes=[2, 3], k=3, hitters=2),
                          dict(sizes=[1, 3], k=4, hitters=3),
                          dict(sizes=[4, 4], k=2, hitters=2),
                          dict(sizes=[4, 4], k=2, hitters=2, merge=True),
                          dict(sizes=[2, 2], k=3, hitters=2, merge=True),
                          dict(sizes=[2, 1], k=3, hitters=2, merge=True, after=2)],
            thorough=[dict(sizes=[3, 3], k=4, hitters=2), dict(sizes=[2, 2, 2], k=3, hitters=3),
                      dict(sizes=[3, 3], k=4, hitters=3, merge=True)],
            stubs=["count-min sketch -> exact counter"],
            bounds="up to 8 cells, 2-3 heavy hitters, updates, merge, update after"),
]
