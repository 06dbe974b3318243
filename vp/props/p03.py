"""P03: skewness and kurtosis equal their definition under batching and merging."""
from ..run import Harness
from .util import cells, column, values, mean
from fractions import Fraction

ON = ("skewness", "kurtosis")
ASSUMPTIONS = [
    "values in [-20,20] (counterexamples are searched there); float noise thresholds of 1e-14 in "
    "the code are read as zero",
]


def moments(ctx, xs):
    m = mean(ctx, xs)
    d = [x - m for x in xs]
    return (ctx.sum([x * x for x in d]), ctx.sum([x * x * x for x in d]),
            ctx.sum([x * x * x * x for x in d]))


def check_shape(ctx, c, xs, bias, tag=""):
    n = len(xs)
    M2, M3, M4 = moments(ctx, xs)
    const = M2 == 0
    sk, ku = c.skewness, c.kurtosis
    if bias and n < 3:
        ctx.check(tag + "skewness undefined", ctx.isnan(sk))
    elif bool(const):
        ctx.check_eq(tag + "skewness of constant data", sk, 0)
    else:
        # g1 = sqrt(n) M3 / M2^1.5, corrected by sqrt(n(n-1))/(n-2)
        import numpy as np

        r = ctx.sqrt(M2)
        e = np.sqrt(n) * M3 / (M2 * r)
        if bias:
            e = np.sqrt(n * (n - 1)) * e / (n - 2)
        ctx.check_eq(tag + "skewness", sk, e)
    if bias and n < 4:
        ctx.check(tag + "kurtosis undefined", ctx.isnan(ku))
    else:
        g = -3 if bool(const) else n * M4 / (M2 * M2) - 3
        if bias:
            g = Fraction(n - 1, (n - 2) * (n - 3)) * ((n + 1) * (g + 3) - 3 * (n - 1))
            if not ctx.symbolic:
                g = float(g)
        ctx.check_eq(tag + "kurtosis", ku, g)


def batches(ctx, kind, sizes, bias=True):
    c = column(kind, on=ON, bias=bias)
    xs = []
    for b, n in enumerate(sizes):
        v = values(ctx, kind, "x%d_" % b, n, 20)
        c.update(cells(ctx, kind, v))
        xs += v
    ctx.spread(xs, Fraction(1, 4))
    check_shape(ctx, c, xs, bias)


def merges(ctx, kind, sizes, bias=True):
    m, xs = None, []
    for b, n in enumerate(sizes):
        c = column(kind, on=ON, bias=bias)
        v = values(ctx, kind, "x%d_" % b, n, 20)
        if n:
            c.update(cells(ctx, kind, v))
        xs += v
        m = c if m is None else m + c
    ctx.spread(xs, Fraction(1, 4))
    check_shape(ctx, m, xs, bias)


def merge_moments(ctx, n1, n2):
    """the merge formulas for chunks with arbitrary moments: (count, mean, variance = s^2, g1, g2)"""
    import numpy as np

    from dataprofiler.profilers.numerical_column_stats import NumericStatsMixin as N

    m1, m2 = ctx.real("m1"), ctx.real("m2")
    s1, s2 = ctx.real("s1", Fraction(1, 2), 50), ctx.real("s2", Fraction(1, 2), 50)
    g1, g2 = ctx.real("g1", -5, 5), ctx.real("g2", -5, 5)
    k1, k2 = ctx.real("k1", -3, 20), ctx.real("k2", -3, 20)
    n = n1 + n2
    d = m2 - m1
    v1, v2 = s1 * s1, s2 * s2
    M2 = n1 * v1 + n2 * v2 + d * d * n1 * n2 / n
    # central moment sums of the union, by shifting each chunk to the common mean
    a1, a2 = -d * n2 / n, d * n1 / n
    if not ctx.symbolic:
        a1, a2 = float(a1), float(a2)
    t1, t2 = n1 * g1 * s1 * s1 * s1, n2 * g2 * s2 * s2 * s2
    M3 = (t1 + 3 * a1 * n1 * v1 + n1 * a1 * a1 * a1) + (t2 + 3 * a2 * n2 * v2 + n2 * a2 * a2 * a2)
    f1, f2 = n1 * (k1 + 3) * v1 * v1, n2 * (k2 + 3) * v2 * v2
    M4 = (f1 + 4 * a1 * t1 + 6 * a1 * a1 * n1 * v1 + n1 * a1 * a1 * a1 * a1) + (
        f2 + 4 * a2 * t2 + 6 * a2 * a2 * n2 * v2 + n2 * a2 * a2 * a2 * a2)
    sk = N._merge_biased_skewness(n1, g1, v1, m1, n2, g2, v2, m2)
    ctx.check_eq("merged skewness", sk, np.sqrt(n) * M3 / (M2 * ctx.sqrt(M2)))
    ku = N._merge_biased_kurtosis(n1, k1, g1, v1, m1, n2, k2, g2, v2, m2)
    ctx.check_eq("merged kurtosis", ku, n * M4 / (M2 * M2) - 3)


HARNESSES = [
    Harness(batches, weight=2,
            quick=[dict(kind="float", sizes=s, bias=b)
                   for s, b in (([1], False), ([2], True), ([3], True), ([4], True),
                                ([1, 1], False), ([2, 1], True), ([1, 2], False), ([1, 1, 1], False),
                                ([2, 2], True))] +
            [dict(kind="int", sizes=[2, 2], bias=True), dict(kind="int", sizes=[2, 1], bias=False),
             dict(kind="text", sizes=[3], bias=True), dict(kind="text", sizes=[2, 1], bias=True),
             dict(kind="text", sizes=[1, 1], bias=False)],
            thorough=[dict(kind=k, sizes=s, bias=b) for k in ("float", "int", "text")
                      for b in (True, False)
                      for s in ([2, 2], [1, 3], [3, 1], [2, 1, 1], [1, 1, 1, 1], [5], [3, 2])],
            bounds="up to 4 values (thorough 5) in up to 3 (4) batches"),
    Harness(merges,
            quick=[dict(kind="float", sizes=s, bias=b) for s, b in
                   (([1, 1], False), ([2, 1], False), ([0, 3], True), ([3, 0], True),
                    ([2, 2], True), ([1, 1, 1], False))],
            thorough=[dict(kind=k, sizes=s, bias=b) for k in ("float", "int") for b in (True, False)
                      for s in ([2, 2], [1, 3], [3, 1], [2, 1, 1], [0, 4], [4, 0], [3, 2])],
            bounds="up to 3 operands of up to 4 values in total (thorough 5)"),
    Harness(merge_moments,
            quick=[dict(n1=a, n2=b) for a in (1, 2, 3, 7) for b in (1, 2, 5)],
            thorough=[dict(n1=a, n2=b) for a in (1, 2, 3, 4, 5, 8, 13, 100)
                      for b in (1, 2, 3, 4, 6, 9, 50)],
            bounds="any mean, deviation, skewness, kurtosis per chunk; listed chunk counts"),
]
