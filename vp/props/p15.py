"""P15: null replication metrics."""
import pandas as pd

from ..run import Harness
from .p12 import Rng, draws
from .sutil import frame, options, profiler

ASSUMPTIONS = [
    "numeric columns, numbers in [-20,20]; every arrangement of nulls; sums over a column without "
    "any value so far (its data type is not decided) or over no rows are not judged",
    "the average over rows counts a null of the other column as 0, as the code documents by its sums",
]


def table(ctx, tag, n, m):
    """rows of numbers and nulls (None)"""
    rows = [[None if ctx.choose("%s_null_%d_%d" % (tag, i, j), 2)
             else ctx.real("%s_%d_%d" % (tag, i, j), -20, 20) for j in range(m)]
            for i in range(n)]
    return rows


def data(ctx, t, cols, flip=False, start=0, date=False):
    if flip:
        t, cols = [r[::-1] for r in t], cols[::-1]
    t = [["nan" if v is None else v for v in r] for r in t]
    d = frame(ctx, t, cols, start, symbolic=True)
    if date:
        d["day"] = pd.Series(["2020-01-0%d" % (i + 1) for i in range(len(t))], index=d.index,
                             dtype=object)
    return d


def opts(date=False):
    po = options(on=("float", "datetime") if date else ("float",), nullrep=True, rows=False)
    fl = po.structured_options.float
    for name in ("min", "max", "variance", "num_zeros", "num_negatives", "bias_correction"):
        getattr(fl, name).is_enabled = False
    return po


def check_metrics(ctx, p, rows, m, date=False):
    n = len(rows)
    stats = p.report(dict(output_format="serializable"))["data_stats"]
    for c in range(m):
        k = sum(1 for r in rows if r[c] is None)
        got = stats[c].get("null_replication_metrics")
        ctx.check("metrics exactly for columns with nulls", (got is not None) == (k > 0))
        if got is None or not k:
            continue
        ctx.check_eq("prior of a value", got["class_prior"][0] * n, n - k)
        ctx.check_eq("prior of a null", got["class_prior"][1] * n, k)
        others = [j for j in range(m) if j != c]
        ctx.check("one entry per other column",
                  all(len(got["class_mean"][z]) == m - 1 + date for z in (0, 1)))
        for z, cnt in ((0, n - k), (1, k)):
            if not cnt:
                continue            # no row to average over
            for a, j in enumerate(others):
                if all(r[j] is None for r in rows):
                    continue        # the other column has no data type yet
                s = ctx.sum([0] + [r[j] for r in rows
                                   if (r[c] is None) == (z == 1) and r[j] is not None])
                ctx.check_eq("sum of the other column, class %d" % z, got["class_sum"][z][a], s)
                ctx.check_eq("mean of the other column, class %d" % z,
                             got["class_mean"][z][a] * cnt, s)


def updates(ctx, sizes, m=2, swap=False, starts=None):
    cols = ["c%d" % j for j in range(m)]
    p, rows = profiler(opts()), []
    for b, n in enumerate(sizes):
        t = table(ctx, "t%d" % b, n, m)
        p.update_profile(data(ctx, t, cols, swap and b > 0, starts[b] if starts else 0))
        rows += t
        check_metrics(ctx, p, rows, m)


def with_correlation(ctx, sizes, m=2, nums=(1.5, -4.0)):
    """the metrics next to correlations and a column which is no number"""
    cols = ["c%d" % j for j in range(m)]
    po = options(on=("float", "datetime"), nullrep=True, rows=False, corr=True)
    p, rows = profiler(po), []
    for b, n in enumerate(sizes):
        t = [[ctx.pick("t%d_%d_%d" % (b, i, j), [None] + list(nums)) for j in range(m)]
             for i in range(n)]
        for j in range(m):
            ctx.assume(any(r[j] is not None for r in t))
        # correlations need two rows
        ctx.assume(sum(any(v is not None for v in r) for r in t) >= 2)
        p.update_profile(data(ctx, t, cols, date=True))
        rows += t
        check_metrics(ctx, p, rows, m, True)


def merges(ctx, sizes, m=2, swap=False, after=0, date=False):
    cols = ["c%d" % j for j in range(m)]
    acc, rows = None, []
    for b, n in enumerate(sizes):
        t = table(ctx, "t%d" % b, n, m)
        p = profiler(opts(date), data(ctx, t, cols, swap and b > 0, date=date))
        acc = p if acc is None else acc + p
        rows += t
    check_metrics(ctx, acc, rows, m, date)
    if after:
        t = table(ctx, "a", after, m)
        acc.update_profile(data(ctx, t, cols))
        check_metrics(ctx, acc, rows + t, m)


def sampled(ctx, n, k, batches=1):
    """only k of the rows are used: the metrics describe those"""
    nums = iter([1.5, -4.0, 2.25, 8.0, 3.5, -0.5, 7.0, 1.0, 5.25, -2.0, 0.75, 9.0])
    cols, rows = ["c0", "c1", "c2"], []
    p = profiler(opts())
    with draws(Rng(ctx)):
        for b in range(batches):
            # the sum of the last column tells which rows were used
            t = [[ctx.pick("t%d_%d_%d" % (b, i, j), [None, next(nums)]) for j in range(2)]
                 + [2.0 ** (len(rows) + i)] for i in range(n)]
            p.update_profile(data(ctx, t, cols), sample_size=k)
            rows += t
    used = int(round(p.report()["data_stats"][2]["statistics"]["sum"]))
    rows = [r for i, r in enumerate(rows) if used >> i & 1]
    ctx.check("number of rows", len(rows) == batches * min(k, n))
    check_metrics(ctx, p, rows, 3)


HARNESSES = [
    Harness(updates,
            quick=[dict(sizes=[2]), dict(sizes=[3]), dict(sizes=[2], m=3),
                   dict(sizes=[2, 1]), dict(sizes=[2, 2]), dict(sizes=[2, 1], m=3),
                   dict(sizes=[2, 1], m=3, swap=True), dict(sizes=[2, 1], starts=[0, 5]),
                   dict(sizes=[1, 1, 1])],
            thorough=[dict(sizes=[4]), dict(sizes=[3, 1], m=3, swap=True), dict(sizes=[3], m=3), dict(sizes=[3, 2]),
                      dict(sizes=[2, 2, 2]), dict(sizes=[2, 2], m=3, swap=True),
                      dict(sizes=[2, 2, 1], starts=[0, 2, 9])],
            bounds="up to 3 updates of up to 3 rows (thorough 4) of 2-3 columns"),
    Harness(with_correlation, quick=[dict(sizes=[2]), dict(sizes=[3], nums=[2.0]),
                                     dict(sizes=[2, 2], nums=[2.0])],
            thorough=[dict(sizes=[3]), dict(sizes=[2, 2])],
            bounds="up to 3 rows of two numeric columns of 2 numbers and nulls and a date column"),
    Harness(sampled, quick=[dict(n=3, k=2), dict(n=2, k=1, batches=2)],
            thorough=[dict(n=3, k=2, batches=2), dict(n=4, k=2)],
            stubs=["random draws are inputs"],
            bounds="2 of 3 rows, or 1 of 2 rows in two updates; every draw"),
    Harness(merges,
            quick=[dict(sizes=[2, 2]), dict(sizes=[2, 1], m=3), dict(sizes=[2, 2], swap=True),
                   dict(sizes=[2, 1], m=3, swap=True), dict(sizes=[2, 1], after=1),
                   dict(sizes=[1, 2, 1]), dict(sizes=[2, 1], date=True)],
            thorough=[dict(sizes=[3, 2]), dict(sizes=[2, 2], m=3, swap=True),
                      dict(sizes=[2, 2], after=2), dict(sizes=[2, 2, 2])],
            bounds="up to 3 profiles of up to 2 rows (thorough 3), then one more update"),
]
