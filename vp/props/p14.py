"""P14: correlation equals the pooled Pearson correlation."""
from fractions import Fraction

import numpy as np
import pandas as pd

from ..run import Harness
from .sutil import frame, options, profiler
from .util import mean

ASSUMPTIONS = [
    "numbers in [-20,20]; merged profiles have at least two rows and no constant column (the code "
    "reports nan otherwise)",
]


def cov(ctx, xs, ys):
    mx, my = mean(ctx, xs), mean(ctx, ys)
    return ctx.sum([(x - mx) * (y - my) for x, y in zip(xs, ys)])


def rows_of(ctx, tag, n, m):
    return [[ctx.real("%s_%d_%d" % (tag, i, j), -20, 20) for j in range(m)] for i in range(n)]


def varied(ctx, t, m):
    """no column is constant"""
    for j in range(m):
        col = [r[j] for r in t]
        ctx.spread(col, Fraction(1, 4))
        ctx.assume(ctx.any([x != col[0] for x in col[1:]]))


def check_corr(ctx, p, rows, m, at=None):
    """at: position of each numeric column in the matrix"""
    mat = p.correlation_matrix
    size = len(p._profile)
    at = at or list(range(m))
    ctx.check("matrix present", mat is not None and mat.shape == (size, size))
    for k in range(size):
        if k not in at:
            for j in range(size):
                ctx.check("nothing for a text column", ctx.isnan(mat[k][j]))
                ctx.check("nothing for a text column", ctx.isnan(mat[j][k]))
    for i in range(m):
        ctx.check_eq("diagonal", mat[at[i]][at[i]], 1)
        for j in range(i):
            a, b = [r[i] for r in rows], [r[j] for r in rows]
            e = cov(ctx, a, b) / (ctx.sqrt(cov(ctx, a, a)) * ctx.sqrt(cov(ctx, b, b)))
            ctx.check_eq("correlation", mat[at[i]][at[j]], e)
            ctx.check_eq("symmetric", mat[at[j]][at[i]], e)


def table(ctx, t, cols, flip, text):
    """numeric columns (reversed if flip), and a text column after the first of them"""
    if flip:
        t, cols = [r[::-1] for r in t], cols[::-1]
    d = frame(ctx, t, cols, symbolic=True)
    if text:
        d.insert(1, "words", pd.Series(["word", "another", "third"][:len(t)], dtype=object))
    return d


def opts(text):
    return options(on=("float", "text") if text else ("float",), corr=True, rows=False)


def where(m, text):
    return [0] + list(range(2, m + 1)) if text else None


def updates(ctx, sizes, m=2, swap=False, text=False, plain=False):
    """plain: single batches may have one row or constant columns"""
    cols = ["c%d" % j for j in range(m)]
    p, rows = profiler(opts(text)), []
    for b, n in enumerate(sizes):
        t = rows_of(ctx, "t%d" % b, n, m)
        if not plain:
            varied(ctx, t, m)
        p.update_profile(table(ctx, t, cols, swap and b > 0, text))
        rows += t
    if plain:
        varied(ctx, rows, m)
    check_corr(ctx, p, rows, m, where(m, text))


def merges(ctx, sizes, m=2, swap=False, text=False):
    cols = ["c%d" % j for j in range(m)]
    acc, rows = None, []
    for b, n in enumerate(sizes):
        t = rows_of(ctx, "t%d" % b, n, m)
        varied(ctx, t, m)
        p = profiler(opts(text), table(ctx, t, cols, swap and b > 0, text))
        acc = p if acc is None else acc + p
        rows += t
    check_corr(ctx, acc, rows, m, where(m, text))


def pooled(ctx, n1, n2):
    """the pooling formula for any moments of the two parts"""
    from dataprofiler.profilers.profile_builder import StructuredProfiler as SP

    mx = ctx.reals("mx", 2, -20, 20)
    my = ctx.reals("my", 2, -20, 20)
    sx = ctx.reals("sx", 2, Fraction(1, 2), 20)
    sy = ctx.reals("sy", 2, Fraction(1, 2), 20)
    r = ctx.reals("r", 2, -1, 1)
    one = Fraction(1) if ctx.symbolic else 1.0
    corr = [ctx.array([[1.0, r[k]], [r[k], 1.0]]) if not ctx.symbolic else mat2(r[k])
            for k in (0, 1)]
    got = SP._merge_correlation_helper(
        corr[0], ctx.array([mx[0], my[0]]), ctx.array([sx[0], sy[0]]), n1,
        corr[1], ctx.array([mx[1], my[1]]), ctx.array([sx[1], sy[1]]), n2)
    n = n1 + n2
    f = one * n1 * n2 / n

    def S(a, b, da, db):
        return (n1 - 1) * a + (n2 - 1) * b + f * da * db

    dx, dy = mx[0] - mx[1], my[0] - my[1]
    cxy = S(r[0] * sx[0] * sy[0], r[1] * sx[1] * sy[1], dx, dy)
    cxx = S(sx[0] * sx[0], sx[1] * sx[1], dx, dx)
    cyy = S(sy[0] * sy[0], sy[1] * sy[1], dy, dy)
    e = cxy / (ctx.sqrt(cxx) * ctx.sqrt(cyy))
    ctx.check_eq("pooled correlation", got[0][1], e)
    ctx.check_eq("symmetric", got[1][0], e)
    ctx.check_eq("diagonal", got[0][0], 1)
    ctx.check_eq("diagonal", got[1][1], 1)


def pearson(x, y):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    sxy = sum((a - mx) * (b - my) for a, b in zip(x, y))
    sxx, syy = sum((a - mx) ** 2 for a in x), sum((b - my) ** 2 for b in y)
    return None if not sxx or not syy else float(sxy) / float(sxx * syy) ** 0.5


NUMBERS = [3, -1, 1, 4, 8, 6, 4, 1, 7, 9, 2, 2, 5, -3, 7, 8, -2, 6]


def nulls(ctx, sizes, rows=True, merge=False, m=2, shift=False):
    """nulls in up to two batches: the mean of the column in the batch takes their place, rows of
    nulls only are left out"""
    po = options(on=("int", "float"), corr=True, rows=rows)
    cols = ["c%d" % j for j in range(m)]
    p, seen, at = None, [], 0
    numbers = iter(NUMBERS)
    for b, n in enumerate(sizes):
        t = [[ctx.pick("t%d%d%d" % (b, i, j), [None, next(numbers)]) for j in range(m)]
             for i in range(n)]
        for j in range(m):
            vals = [r[j] for r in t if r[j] is not None]
            ctx.assume(len(vals) > 0 and (not merge or len(set(vals)) > 1))
        d = frame(ctx, [["" if v is None else str(v) for v in r] for r in t], cols,
                  at if shift else 0)
        at += n
        if p is None:
            p = profiler(po, d)
        elif merge:
            p = p + profiler(po, d)
        else:
            p.update_profile(d)
        kept = [r for r in t if any(v is not None for v in r)]
        means = [Fraction(sum(r[j] for r in kept if r[j] is not None),
                          sum(1 for r in kept if r[j] is not None)) for j in range(m)]
        seen += [[means[j] if v is None else Fraction(v) for j, v in enumerate(r)] for r in kept]
    mat = p.correlation_matrix
    ctx.check("matrix", mat is not None and mat.shape == (m, m))
    for i in range(m):
        for j in range(m):
            want = pearson([r[i] for r in seen], [r[j] for r in seen])
            if want is not None:
                ctx.check("correlation with nulls", abs(float(mat[i][j]) - want) < 1e-6)


def selected(ctx, sizes, names, merge=False):
    """correlation only of the columns asked for, whatever their capitalisation"""
    po = options(on=("int", "float"), corr=True, rows=False)
    m = len(names)
    want = [ctx.choose("w%d" % j, 3) for j in range(m)]
    asked = [(n.lower() if w == 1 else n.upper()) for n, w in zip(names, want) if w]
    if ctx.choose("other", 2):
        asked.insert(0, "zz")
    ctx.assume(len(asked) > 1)
    if ctx.choose("turned", 2):
        asked.reverse()
    po.structured_options.correlation.columns = list(asked)
    chosen = [j for j in range(m) if want[j]]
    numbers, p, seen, at = iter(NUMBERS), None, [], 0
    for n in sizes:
        t = [[next(numbers) for _ in range(m)] for _ in range(n)]
        d = frame(ctx, [[str(v) for v in r] for r in t], names, at)
        at += n
        if p is None:
            p = profiler(po, d)
        elif merge:
            p = p + profiler(po, d)
        else:
            p.update_profile(d)
        seen += t
    mat = p.correlation_matrix
    if merge and len(chosen) < 2:
        return
    ctx.check("matrix", mat is not None and mat.shape == (m, m))
    for i in range(m):
        for j in range(m):
            if i in chosen and j in chosen:
                e = pearson([Fraction(r[i]) for r in seen], [Fraction(r[j]) for r in seen])
                ctx.check("correlation", abs(float(mat[i][j]) - e) < 1e-6)
            else:
                ctx.check("nothing for other columns", mat[i][j] != mat[i][j])


def odd_cells(ctx, sizes, cells=("1", "4", "inf", ""), merge=False):
    """infinities and nulls anywhere: a symmetric matrix of correlations or nothing"""
    po = options(on=("int", "float"), corr=True, rows=False)
    p = None
    for b, n in enumerate(sizes):
        t = [[ctx.pick("t%d%d%d" % (b, i, j), list(cells)) for j in range(2)] for i in range(n)]
        d = frame(ctx, t, ["a", "b"])
        if p is None:
            p = profiler(po, d)
        elif merge:
            p = p + profiler(po, d)
        else:
            p.update_profile(d)
    mat = p.correlation_matrix
    if mat is None:
        return
    ctx.check("shape", mat.shape == (2, 2))
    for i in range(2):
        ctx.check("diagonal", np.isnan(mat[i][i]) or abs(mat[i][i] - 1) < 1e-6)
        for j in range(2):
            x, y = mat[i][j], mat[j][i]
            ctx.check("symmetric", np.isnan(x) and np.isnan(y) or abs(x - y) < 1e-6)
            ctx.check("between -1 and 1", np.isnan(x) or abs(x) < 1 + 1e-6)


def mat2(r):
    a = np.empty((2, 2), dtype=object)
    a[0, 0] = a[1, 1] = 1
    a[0, 1] = a[1, 0] = r
    return a


HARNESSES = [
    Harness(updates,
            quick=[dict(sizes=s, m=m) for s, m in (([2], 2), ([3], 2), ([2], 3), ([2, 2], 2))]
            + [dict(sizes=[2, 2], swap=True), dict(sizes=[2], text=True),
               dict(sizes=[2, 2], text=True), dict(sizes=[2, 1], plain=True),
               dict(sizes=[1, 1, 1], plain=True), dict(sizes=[1, 2], plain=True)],
            thorough=[dict(sizes=s, m=m) for s, m in (([4], 2), ([3], 3), ([3, 2], 2),
                                                      ([2, 3], 2), ([2, 2, 2], 2), ([2, 2], 3))],
            bounds="2-4 rows (thorough 6) of 2-3 columns in 1-2 (3) updates"),
    Harness(merges,
            quick=[dict(sizes=[2, 2]), dict(sizes=[2, 2], swap=True),
                   dict(sizes=[2, 2], text=True), dict(sizes=[2, 2], swap=True, text=True)],
            thorough=[dict(sizes=[3, 2]), dict(sizes=[2, 2], m=3), dict(sizes=[2, 2, 2]),
                      dict(sizes=[3, 2], swap=True)],
            bounds="2 (thorough 3) profiles of 2 (3) rows, columns in the same or swapped order"),
    Harness(pooled,
            quick=[dict(n1=a, n2=b) for a in (2, 3, 7) for b in (2, 5)],
            thorough=[dict(n1=a, n2=b) for a in (2, 3, 4, 9, 40) for b in (2, 3, 6, 25)],
            bounds="any means, deviations and correlations of two parts with the listed counts"),
    Harness(nulls,
            quick=[dict(sizes=[3]), dict(sizes=[3, 2], rows=False), dict(sizes=[3, 2]),
                   dict(sizes=[1, 3], rows=False), dict(sizes=[2, 2], rows=False, shift=True),
                   dict(sizes=[3, 3], merge=True, rows=False)],
            thorough=[dict(sizes=[4]), dict(sizes=[3], m=3), dict(sizes=[3, 3]),
                      dict(sizes=[3, 3], merge=True)],
            bounds="every arrangement of nulls in up to 5 (6) rows of two columns, in up to two "
                   "updates or merged profiles, with and without row statistics"),
    Harness(selected,
            quick=[dict(sizes=[3], names=["A", "b"]), dict(sizes=[3, 2], names=["A", "b", "Cd"]),
                   dict(sizes=[3, 3], names=["A", "B"], merge=True)],
            thorough=[dict(sizes=[2, 1, 2], names=["A", "b", "Cd"]),
                      dict(sizes=[3, 3], names=["A", "b", "Cd"], merge=True)],
            bounds="every selection of up to three columns, asked for in any capitalisation and "
                   "order, with names no column has"),
    Harness(odd_cells,
            quick=[dict(sizes=[2]), dict(sizes=[2, 1], cells=["1", "inf", ""]),
                   dict(sizes=[1, 2], cells=["1", "4", "inf"]),
                   dict(sizes=[1, 2], cells=["1", "inf", ""], merge=True)],
            thorough=[dict(sizes=[3], cells=["1", "inf", ""]), dict(sizes=[2, 2], cells=["1", "3", "inf"]),
                      dict(sizes=[2, 2], cells=["1", "3", ""]),
                      dict(sizes=[2, 2], cells=["1", "4", "inf"], merge=True)],
            bounds="up to 4 rows of two columns of up to four numbers, infinities and nulls, in up "
                   "to two updates or merged profiles"),
]
