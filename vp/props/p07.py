"""P07: row counts, null rows and duplicate rows."""
import pandas as pd

from dataprofiler.profilers.profile_builder import StructuredProfiler

from ..run import Harness
from .p12 import Rng, draws
from .sutil import frame, options, profiler

ASSUMPTIONS = [
    "cells are a null text or one of up to two other texts; every arrangement is covered",
    "full row hashing; HyperLogLog with up to 3 rows, where its estimate is exact",
]
CELL = ["v", "nan", "w", ""]
NULL = ("nan", "")
SPELLED = ["nan", "", "None", "null", "-", "x"]


def table(ctx, tag, n, m, kinds):
    return [[CELL[ctx.choose("%s_%d_%d" % (tag, i, j), kinds)] for j in range(m)]
            for i in range(n)]


def stats(p):
    g = p.report()["global_stats"]
    return {k: g[k] for k in ("row_count", "row_has_null_ratio", "row_is_null_ratio",
                              "unique_row_ratio", "duplicate_row_count", "samples_used",
                              "column_count")}


def check_rows(ctx, p, rows, tag=""):
    n = len(rows)
    g = stats(p)
    has = sum(1 for r in rows if any(c in NULL for c in r))
    isn = sum(1 for r in rows if all(c in NULL for c in r))
    uniq = len({tuple(r) for r in rows})
    ctx.check_eq(tag + "row count", g["row_count"], n)
    ctx.check_eq(tag + "samples used", g["samples_used"], n)
    ctx.check_eq(tag + "rows with a null", g["row_has_null_ratio"] * n, has)
    ctx.check_eq(tag + "rows of nulls", g["row_is_null_ratio"] * n, isn)
    ctx.check_eq(tag + "unique rows", g["unique_row_ratio"] * n, uniq)
    ctx.check_eq(tag + "duplicate rows", g["duplicate_row_count"], n - uniq)


def updates(ctx, sizes, m, kinds, starts=None, min_true=0, names=None, hashing="full"):
    cols = ["c%d" % j for j in range(m)]
    p, rows = profiler(options(hashing=hashing), None, min_true), []
    for b, n in enumerate(sizes):
        t = table(ctx, "t%d" % b, n, m, kinds)
        st = 0
        if starts:
            st = starts[b] if isinstance(starts[b], int) else ctx.pick("start%d" % b, starts[b])
        if names:       # same columns, spelled and ordered differently
            cols = ctx.pick("names%d" % b, names)
            ix = [sorted(names[0], key=str.lower).index(x)
                  for x in [[y for y in names[0] if y.lower() == c.lower()][0] for c in cols]]
            p.update_profile(frame(ctx, [[r[j] for j in ix] for r in t], cols, st))
        else:
            p.update_profile(frame(ctx, t, cols, st))
        rows += t
        check_rows(ctx, p, rows, "after %d: " % (b + 1))


def twice(ctx, n, m, kinds):
    """a profile merged with itself"""
    rows = table(ctx, "t", n, m, kinds)
    p = profiler(options(), frame(ctx, rows, ["c%d" % j for j in range(m)]))
    before = stats(p)
    check_rows(ctx, p + p, rows + rows, "merged with itself ")
    ctx.check("operand unchanged", stats(p) == before)


def merges(ctx, sizes, m, kinds, after=0, swap=False, min_true=0, hashing="full"):
    cols = ["c%d" % j for j in range(m)]
    acc, rows = None, []
    for b, n in enumerate(sizes):
        t = table(ctx, "t%d" % b, n, m, kinds)
        if swap and b:
            p = profiler(options(hashing=hashing), frame(ctx, [r[::-1] for r in t], cols[::-1]),
                         min_true)
        else:
            p = profiler(options(hashing=hashing), frame(ctx, t, cols), min_true)
        if acc is None:
            acc = p
        else:
            s1, s2 = stats(acc), stats(p)
            new = acc + p
            ctx.check("left operand unchanged", stats(acc) == s1)
            ctx.check("right operand unchanged", stats(p) == s2)
            acc = new
        rows += t
    if hashing != "full":
        return
    check_rows(ctx, acc, rows, "merged ")
    if after:
        t = table(ctx, "a", after, m, kinds)
        acc.update_profile(frame(ctx, t, cols))
        check_rows(ctx, acc, rows + t, "updated after merge ")


def null_rows(ctx, nulls):
    """any recorded null rows of the columns: rows with a null = union, rows of nulls = overlap"""
    from dataprofiler.profilers.profile_builder import StructuredColProfiler

    p = profiler(options())
    p.options.row_statistics.unique_count.is_enabled = False
    rows = []
    for j, k in enumerate(nulls):
        c = StructuredColProfiler()
        r = [ctx.int("r%d_%d" % (j, i), 0, 10**6) for i in range(k)]
        for i in range(1, k):
            ctx.assume(r[i] > r[i - 1])
        for i, x in enumerate(r):
            c.null_types_index.setdefault(SPELLED[i], set()).add(x)
        rows.append(r)
        p._profile.append(c)
    p._update_row_statistics(pd.DataFrame({"a": ["1"]}))
    flat = [x for r in rows for x in r]
    union = ctx.count([ctx.not_(ctx.any([x == y for y in flat[:i]])) for i, x in enumerate(flat)])
    inter = ctx.count([ctx.all([ctx.any([x == y for y in r]) for r in rows[1:]])
                       for x in rows[0]])
    ctx.check_eq("rows with a null", p.row_has_null_count, union)
    ctx.check_eq("rows of nulls", p.row_is_null_count, inter)


def sampled(ctx, sizes, m, k, starts=None, min_true=0):
    """rows sampled from every batch: the null rows among the sampled rows are counted"""
    cols = ["c%d" % j for j in range(m)]
    with draws(Rng(ctx)):
        p = StructuredProfiler(None, options=options(), samples_per_update=k,
                               min_true_samples=min_true)
        total, same, rows = 0, True, []
        for b, n in enumerate(sizes):
            t = table(ctx, "t%d" % b, n, m, 2)
            st = ctx.pick("start%d" % b, starts[b]) if starts else total
            p.update_profile(frame(ctx, t, cols, st))
            total += n
            rows += t
            same = same and len({c.sample_size for c in p._profile}) == 1
    g = p.report()
    ctx.check_eq("rows", g["global_stats"]["row_count"], total)
    uniq = len({tuple(r) for r in rows})
    ctx.check_eq("unique rows", g["global_stats"]["unique_row_ratio"] * total, uniq)
    ctx.check_eq("duplicate rows", g["global_stats"]["duplicate_row_count"], total - uniq)
    sizes_used = [c["statistics"]["sample_size"] for c in g["data_stats"]]
    used = min(sizes_used)
    ctx.check("rows used", used >= sum(min(k, n) for n in sizes))
    null = []
    for c in g["data_stats"]:
        ix = [i for v in c["statistics"]["null_types_index"].values() for i in v]
        ctx.check_eq("nulls of the column", len(set(ix)), c["statistics"]["null_count"])
        null.append(set(ix))
    has = g["global_stats"]["row_has_null_ratio"] * used
    isn = g["global_stats"]["row_is_null_ratio"] * used
    if same:
        # all columns have seen the same rows
        ctx.check_eq("rows with a null", has, len(set.union(*null)))
        ctx.check_eq("rows of nulls", isn, len(set.intersection(*null)))
    else:
        ctx.check_le("rows with a null", has, len(set.union(*null)))
        ctx.check_le("rows of nulls", isn, len(set.intersection(*null)))
    ctx.check_le("null rows have a null", isn, has)


HARNESSES = [
    Harness(sampled, stubs=["random draws are inputs"],
            quick=[dict(sizes=[3], m=2, k=1), dict(sizes=[3], m=1, k=2), dict(sizes=[3], m=2, k=2),
                   dict(sizes=[2, 2], m=1, k=1),
                   dict(sizes=[3], m=1, k=1, min_true=1), dict(sizes=[3], m=2, k=2, min_true=1),
                   dict(sizes=[2, 2], m=1, k=1, starts=[[0, 3], [0, 4, 9]], min_true=1)],
            thorough=[dict(sizes=[4], m=2, k=2), dict(sizes=[3, 2], m=1, k=2),
                      dict(sizes=[2, 2], m=2, k=1), dict(sizes=[3, 2], m=2, k=2, min_true=1)],
            bounds="1-2 columns, up to 3 (thorough 4) rows per batch, every sample of them"),
    Harness(null_rows,
            quick=[dict(nulls=k) for k in ([2], [1, 1], [2, 1], [2, 2], [1, 1, 1], [2, 0], [0, 2],
                                            [5], [1, 4])],
            thorough=[dict(nulls=k) for k in ([3, 2], [3, 3], [2, 2, 1], [2, 2, 2], [1, 1, 1, 1])],
            bounds="1-3 columns (thorough 4) with up to 2 (3) nulls each at any row number"),
    Harness(updates, stubs=["cell texts from a finite list"],
            quick=[dict(sizes=[2], m=2, kinds=3), dict(sizes=[3], m=2, kinds=2),
                   dict(sizes=[1, 1], m=2, kinds=3), dict(sizes=[2, 1], m=2, kinds=2),
                   dict(sizes=[1, 1, 1], m=2, kinds=2, starts=[0, [0, 5], [0, 1, 5, 9]]),
                   dict(sizes=[1, 1, 1], m=1, kinds=2, starts=[[0, 3], [0, 3, 7], [0, 1, 7, 20]],
                        min_true=1),
                   dict(sizes=[2, 1], m=2, kinds=2, starts=[0, [0, 1, 5]], min_true=1),
                   dict(sizes=[1, 1], m=2, kinds=3,
                        names=[["B", "a"], ["b", "a"], ["A", "b"], ["a", "B"]]),
                   dict(sizes=[1, 1, 1], m=1, kinds=3, hashing="hll"),
                   dict(sizes=[2, 1], m=1, kinds=3, hashing="hll"),
                   dict(sizes=[2], m=1, kinds=4)],
            thorough=[dict(sizes=[3], m=2, kinds=3), dict(sizes=[2], m=3, kinds=3),
                      dict(sizes=[2, 2], m=2, kinds=2, starts=[0, [0, 1, 2, 9]], min_true=1),
                      dict(sizes=[1, 1, 1], m=2, kinds=3),
                      dict(sizes=[2, 1, 1], m=2, kinds=2,
                           starts=[0, [0, 2, 7], [0, 2, 8, 20]], min_true=1)],
            bounds="up to 3 rows (thorough 4) of up to 2 (3) columns over up to 3 updates"),
    Harness(twice, quick=[dict(n=2, m=2, kinds=3)], thorough=[dict(n=3, m=2, kinds=3)],
            bounds="tables of 2 (thorough 3) rows"),
    Harness(merges,
            quick=[dict(sizes=[1, 1], m=2, kinds=3), dict(sizes=[2, 1], m=2, kinds=2),
                   dict(sizes=[1, 1], m=2, kinds=2, after=1),
                   dict(sizes=[1, 1, 1], m=2, kinds=2),
                   dict(sizes=[1, 1], m=2, kinds=2, after=1, min_true=1),
                   dict(sizes=[1, 1], m=2, kinds=2, swap=True),
                   dict(sizes=[2, 1], m=1, kinds=3, hashing="hll")],
            thorough=[dict(sizes=[2, 2], m=2, kinds=2), dict(sizes=[2, 1], m=2, kinds=3),
                      dict(sizes=[1, 1], m=3, kinds=3, after=1),
                      dict(sizes=[2, 1], m=2, kinds=2, after=2, min_true=1)],
            bounds="up to 3 profiles of up to 2 rows, then one more update"),
]
