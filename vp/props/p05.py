"""P05: quantiles, median, mode and MAD are consistent with the histogram."""
from fractions import Fraction

import numpy as np

from ..run import Harness
from .p04 import hist_column
from .util import cells, scaled_column, values

ASSUMPTIONS = [
    "histograms have equally wide bins, as every histogram the code builds has; bin counts are "
    "any non-negative numbers with a fixed total (4..12), edges any lower edge and width",
]


ALL = ("median", "mode", "median_abs_deviation")


def histogram(ctx, nb, total, width=True, quantiles=4, modes=None):
    """column with an arbitrary histogram of nb equal bins holding `total` values"""
    lo = ctx.real("lo", -50, 50) if width else 0
    w = ctx.real("w", Fraction(1, 4), 50) if width else 1
    ns = [ctx.int("n%d" % i, 0, total, relaxed=True) for i in range(nb - 1)]
    last = total - ctx.sum(ns) if ns else total
    ctx.assume(last >= 0)
    ns.append(last)
    edges = [lo + w * i for i in range(nb + 1)]
    c = hist_column("float", nb, quantiles, ALL, modes)
    c._stored_histogram["histogram"] = {
        "bin_counts": ctx.array(ns), "bin_edges": ctx.array(edges)}
    c.match_count = total
    return c, ns, edges, w


def where(ctx, edges, q):
    """index of the bin holding q (forks), None if outside"""
    if bool(q < edges[0]):
        return None
    for i in range(len(edges) - 1):
        if bool(q <= edges[i + 1]):
            return i
    return None


def cdf(ctx, ns, edges, w, q):
    """number of values left of q, by linear interpolation inside bins"""
    if bool(q <= edges[0]):
        return 0
    if bool(q >= edges[-1]):
        return ctx.sum(ns)
    i = 0
    while i < len(ns) - 1 and bool(q > edges[i + 1]):
        i += 1
    return ctx.sum(ns[:i]) + ns[i] * (q - edges[i]) / w


def quantiles(ctx, nb, total, k):
    c, ns, edges, w = histogram(ctx, nb, total, quantiles=k)
    c._get_quantiles()
    qs = list(c.quantiles)
    ctx.check("number of quantiles", len(qs) == k - 1)
    prev = edges[0]
    for j, q in enumerate(qs):
        ctx.check_le("ordered", prev, q)
        prev = q
        ctx.check_eq("share of mass left of quantile", cdf(ctx, ns, edges, w, q),
                     Fraction(total * (j + 1), k) if ctx.symbolic else total * (j + 1) / k)
    ctx.check_le("not above the maximum", prev, edges[-1])


def percentile(ctx, nb, total):
    """any requested percentage"""
    c, ns, edges, w = histogram(ctx, nb, total)
    p = ctx.real("p", 0, 100)
    ctx.spread([p, 50, 0, 100], Fraction(1, 100))
    cum = 0
    for n in ns:
        cum = cum + n
        ctx.spread([p * total, cum * 100], Fraction(1, 100))
    (q,) = c._get_percentile([p])
    ctx.check_le("not below the minimum", edges[0], q)
    ctx.check_le("not above the maximum", q, edges[-1])
    ctx.check_eq("share of mass left of quantile", cdf(ctx, ns, edges, w, q), p * total / 100)


def median(ctx, nb, total):
    c, ns, edges, w = histogram(ctx, nb, total)
    m = c.median
    ctx.check_eq("half of the mass is left of the median", cdf(ctx, ns, edges, w, m) * 2, total)
    (q,) = c._get_percentile([50])
    ctx.check_eq("median is the 50% quantile", q, m)
    # when exactly half of the mass lies before an empty stretch: its midpoint
    for i in range(1, nb):
        for j in range(i + 1, nb):
            gap = ctx.all([ctx.sum(ns[:i]) * 2 == total, ns[i - 1] > 0, ns[j] > 0] +
                          [n == 0 for n in ns[i:j]])
            if bool(gap):
                ctx.check_eq("midpoint of the gap", m * 2, edges[i] + edges[j])


def mode(ctx, nb, total, k):
    c, ns, edges, w = histogram(ctx, nb, total, modes=k)
    ms = list(c.mode)
    mids = [(edges[i] + edges[i + 1]) / 2 for i in range(nb)]
    top = [ctx.all([ns[i] >= n for n in ns]) for i in range(nb)]
    nmax = ctx.count(top)
    for m in ms:
        ctx.check("mode is the middle of a fullest bin",
                  ctx.any([ctx.all([m == mids[i], top[i]]) for i in range(nb)]))
    for a, b in zip(ms, ms[1:]):
        ctx.check("modes are distinct and ordered", a < b)
    ctx.check_eq("number of modes", len(ms), ctx.ite(nmax > k, k, nmax))


def mad(ctx, nb, total):
    c, ns, edges, w = histogram(ctx, nb, total)
    med = c.median
    d = c.median_abs_deviation
    ctx.check_le("not negative", 0, d)
    ctx.check_eq("half of the mass lies within the deviation of the median",
                 (cdf(ctx, ns, edges, w, med + d) - cdf(ctx, ns, edges, w, med - d)) * 2, total)


def gap(ctx, nb, total):
    """the deviation lies inside of, not at the end of, a stretch of distances without values"""
    ns = []
    for i in range(nb):
        ns.append(ctx.pick("n%d" % i, range(total - sum(ns) + 1)) if i < nb - 1 else
                  total - sum(ns))
    edges = [3 + 2 * i for i in range(nb + 1)]
    c = hist_column("float", nb, 4, ALL)
    c._stored_histogram["histogram"] = {
        "bin_counts": np.array(ns), "bin_edges": np.array(edges, dtype=float)}
    c.match_count = total
    med, d = float(c.median), float(c.median_abs_deviation)

    def half(x):
        m = cdf(ctx, ns, edges, 2, med + x) - cdf(ctx, ns, edges, 2, med - x)
        return abs(2 * m - total) < 1e-6

    ctx.check("half of the mass lies within the deviation of the median", half(d))
    for x in (1 / 64, -1 / 64):
        if half(d + x):
            ctx.check("inside of the gap", half(d - x / 32))


def from_data(ctx, kind, sizes, bins):
    """quantiles and median of profiled data stay within its range and ordered"""
    c = hist_column(kind, bins, on=ALL)
    xs = []
    for b, n in enumerate(sizes):
        v = values(ctx, kind, "x%d_" % b, n, 50)
        c.update(cells(ctx, kind, v))
        xs += v
    ctx.spread(xs, Fraction(1, 4))
    lo, hi = ctx.min(xs), ctx.max(xs)
    prev = lo
    for q in list(c.quantiles):
        ctx.check_le("quantiles ordered", prev, q)
        prev = q
    ctx.check_le("quantiles below the maximum", prev, hi)
    m = c.median
    ctx.check_le("median above the minimum", lo, m)
    ctx.check_le("median below the maximum", m, hi)
    for x in c.mode:
        ctx.check_le("mode above the minimum", lo, x)
        ctx.check_le("mode below the maximum", x, hi)
    d = c.median_abs_deviation
    ctx.check_le("deviation not negative", 0, d)
    ctx.check_le("deviation below the range", d, hi - lo)


def scales(ctx, sizes, bins, merge=False):
    """very small and very large numbers"""
    c, us, s = scaled_column(ctx, sizes, lambda: hist_column("float", bins, 4, ALL), merge)
    lo, hi = min(us), max(us)
    h = c._stored_histogram["histogram"]
    edges = [e / s for e in h["bin_edges"]]
    med = c.median / s
    ctx.check("median within the range", lo - 1e-6 <= med <= hi + 1e-6)
    below = sum(k for k, a, b in zip(h["bin_counts"], edges, edges[1:]) if b < med - 1e-6)
    above = sum(k for k, a, b in zip(h["bin_counts"], edges, edges[1:]) if a > med + 1e-6)
    ctx.check("median has half the values on either side",
              below <= len(us) / 2 and above <= len(us) / 2)
    ctx.check("mode within the range", all(lo - 1e-6 <= x / s <= hi + 1e-6 for x in c.mode))
    d = c.median_abs_deviation / s
    ctx.check("median absolute deviation within the range", -1e-6 <= d <= hi - lo + 1e-6)
    ctx.check("median absolute deviation of a spread column", lo == hi or d > 1e-6)
    c._get_quantiles()
    qs = [q / s for q in c.quantiles]
    ctx.check("quantiles ordered", all(a <= b + 1e-6 for a, b in zip(qs, qs[1:])))
    ctx.check("quantiles within the range", all(lo - 1e-6 <= q <= hi + 1e-6 for q in qs))



HARNESSES = [
    Harness(scales, quick=[dict(sizes=[2], bins=2), dict(sizes=[3], bins=3),
                           dict(sizes=[2, 1], bins=3), dict(sizes=[2, 1], bins=2, merge=True)],
            thorough=[dict(sizes=[2, 2], bins=b, merge=m) for b in (3, ["auto"])
                      for m in (False, True)],
            bounds="values 1, 4, -2, 0 times 1e-9, 1e-3, 1e7 or 1e15, up to 3 (thorough 4) cells"),
    Harness(quantiles,
            quick=[dict(nb=a, total=t, k=k) for a, t, k in
                   ((1, 4, 4), (2, 4, 4), (3, 6, 4), (3, 4, 5), (4, 8, 4))],
            thorough=[dict(nb=a, total=t, k=k) for a in (2, 3, 4, 5) for t in (7, 12)
                      for k in (3, 4, 10)],
            bounds="1-4 bins (thorough 5), total count 4-8 (12), 3-4 (9) quantiles"),
    Harness(percentile,
            quick=[dict(nb=a, total=t) for a, t in ((1, 3), (2, 5), (3, 6), (4, 8))],
            thorough=[dict(nb=a, total=t) for a in (3, 4, 5) for t in (7, 10)],
            bounds="1-4 bins (thorough 5), any percentage 0..100"),
    Harness(median,
            quick=[dict(nb=a, total=t) for a, t in ((1, 3), (2, 4), (3, 6), (4, 8), (4, 5))],
            thorough=[dict(nb=a, total=t) for a in (4, 5, 6) for t in (7, 10)],
            bounds="1-4 bins (thorough 6)"),
    Harness(mode,
            quick=[dict(nb=a, total=t, k=k) for a, t, k in
                   ((1, 3, 1), (2, 4, 1), (3, 6, 2), (3, 6, 5), (4, 8, 2))],
            thorough=[dict(nb=a, total=t, k=k) for a in (4, 5) for t in (7, 10) for k in (1, 3, 5)],
            bounds="1-4 bins (thorough 5), 1-5 reported modes"),
    Harness(gap, quick=[dict(nb=5, total=4), dict(nb=5, total=3)],
            thorough=[dict(nb=6, total=4), dict(nb=5, total=8)],
            bounds="5 bins of one width and 3 or 4 values (thorough 6 bins, 8 values)"),
    Harness(mad,
            quick=[dict(nb=a, total=t) for a, t in ((1, 3), (2, 4), (2, 5), (3, 6))],
            thorough=[dict(nb=a, total=t) for a in (3, 4, 5) for t in (5, 7, 10)],
            bounds="1-3 bins (thorough 5)"),
    Harness(from_data,
            quick=[dict(kind="float", sizes=s, bins=b) for s, b in
                   (([1], 2), ([2], 2), ([3], 2), ([2, 1], 2), ([3], 3))] +
            [dict(kind="int", sizes=[2], bins=2), dict(kind="text", sizes=[2], bins=3)],
            thorough=[dict(kind=k, sizes=s, bins=b) for k in ("float", "int", "text")
                      for s in ([3], [4], [2, 1], [2, 2]) for b in (2, 3, 4)],
            bounds="up to 3 values (thorough 4) in up to 2 batches, 2-3 (4) bins"),
]
