"""P36: a histogram binned by a named method has the number of bins the method gives."""
import math
import warnings

import numpy as np
import pandas as pd

from dataprofiler.profilers import FloatColumn, IntColumn, TextColumn
from dataprofiler.profilers import histogram_utils as HU

from ..run import Harness
from .util import num_options, put

ASSUMPTIONS = [
    "rule: the statistics a rule reads (count, extremes, deviation, skewness, quartiles) are set on "
    "a real column: extremes, deviation and quartiles are arbitrary reals, counts and skewness "
    "picked from lists; logarithms and roots of the count are the floating point ones",
    "batch, merge: numbers picked by the solver from a short list (numpy's own estimators do not "
    "run on symbolic arrays); one batch is compared with numpy.histogram_bin_edges",
    "where a rule lands within a rounding error of a whole number both neighbours are accepted, "
    "unless the division is exact (by a power of two)",
]
CLS = {"float": FloatColumn, "int": IntColumn, "text": TextColumn}
BY_COUNT = {
    "sturges": lambda n: math.log2(n) + 1.0,
    "rice": lambda n: 2.0 * n ** (1.0 / 3),
    "sqrt": lambda n: math.sqrt(n),
}
NEAR = 1e-6


def exact(x):
    """dividing by x makes no rounding error"""
    return x >= 1 and math.frexp(x)[0] == 0.5


def whole(x):
    """the numbers of bins allowed for range / width == x"""
    if exact(x):
        return {int(x)}
    k = math.ceil(x)
    out = {max(k, 1)}
    if abs(x - round(x)) < NEAR * max(1.0, abs(x)):
        out |= {max(int(round(x)), 1), int(round(x)) + 1}
    return out


def rule(ctx, method, n, edges=False, flat=False):
    """the count for any extremes, deviation and quartiles"""
    c = FloatColumn("c", num_options("float", on=("histogram_and_quantiles", "skewness")))
    lo = ctx.real("lo", -1000, 1000)
    wide = ctx.real("range", 0, 1000)
    hi = lo + wide
    if edges:
        # extremes the profile cannot give are those of the stored histogram
        bad = ctx.pick("extreme", [None, "inf"])
        put(c, min=None if bad is None else -np.inf, max=None if bad is None else np.inf)
    else:
        put(c, min=lo, max=hi)
    put(c, match_count=n, _stored_histogram={
        "total_loss": 0.0, "current_loss": 0.0, "suggested_bin_count": 2,
        "histogram": {"bin_counts": np.array([1, 1]),
                      "bin_edges": ctx.array([lo, lo + wide / 3, hi])}})
    width, skew = None, None
    if method in ("scott", "doane"):
        sd = ctx.real("deviation", 0, 500)
        sd = sd * 0 if flat else sd
        # the reported deviation is that of the variance, corrected for the bias
        put(c, _biased_variance=sd * sd * (n - 1) / n if n else np.nan)
        if n == 1:
            put(c, _biased_variance=0.0)
    if method == "doane":
        skew = ctx.pick("skew", [0.0, 0.5, -2.0, 7.0])
        put(c, _biased_skewness=skew)
    if method in ("fd", "auto"):
        q1 = ctx.real("q1", -1000, 1000)
        q3 = q1 if flat else ctx.real("q3", -1000, 1000)
        ctx.assume(q1 <= q3)
        at = {25: q1, 75: q3}
        getattr(c, "_get_percentile")
        c._get_percentile = lambda ps: [at[int(p)] for p in ps]
    # the width the rule gives, the range being `wide`
    if n:
        if method in BY_COUNT:
            width = wide / BY_COUNT[method](n)
        elif method == "scott":
            width = 0 if n == 1 else (24.0 * np.pi ** 0.5 / n) ** (1.0 / 3.0) * sd
        elif method == "fd":
            width = 2.0 * (q3 - q1) * n ** (-1.0 / 3.0)
        elif method == "auto":
            fd = 2.0 * (q3 - q1) * n ** (-1.0 / 3.0)
            st = wide / BY_COUNT["sturges"](n)
            width = st if bool(fd == 0) else ctx.min([fd, st])
        elif method == "doane":
            if n > 2 and bool(sd > 0):
                g = math.sqrt(6.0 * (n - 2) / ((n + 1.0) * (n + 3)))
                width = wide / (1.0 + math.log2(n) + math.log2(1.0 + abs(skew) / g))
            else:
                width = 0
    else:
        width = 0
    if not isinstance(width, int):
        # few bins, so that the count can be followed through every case
        ctx.assume(wide <= 12 * width)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = HU._calculate_bins_from_profile(c, method)
    if got is None:
        ctx.fail("no count")
        return
    if isinstance(width, int) or bool(width == 0):
        ctx.check_eq("one bin where there is no width", got, 1)
        return
    eps = 1e-9
    ctx.check("enough bins", wide <= got * width * (1 + eps))
    if method in BY_COUNT and exact(BY_COUNT[method](n)):
        ctx.check("no bin too many", (got - 1) * width < wide)
    else:
        ctx.check("no bin too many", (got - 1) * width <= wide * (1 + eps))


def unknown(ctx, n):
    c = FloatColumn("c", num_options("float", on=("histogram_and_quantiles",)))
    name = ctx.pick("name", ["", "Auto", "stone", "custom", "sqrt ", "sturge"])
    put(c, min=0.0, max=1.0, match_count=n)
    try:
        HU._calculate_bins_from_profile(c, name)
    except ValueError:
        return
    ctx.fail("unknown rule accepted: %r" % name)


POOL = {"float": [0.0, 1.0, 2.5, -3.25, 7.0], "int": [0, 1, 9, -4], "text": [0, 2, 7]}
METHODS = ["auto", "fd", "doane", "scott", "rice", "sturges", "sqrt"]


def make(kind, methods):
    o = num_options(kind, on=("histogram_and_quantiles", "skewness"))
    o.histogram_and_quantiles.bin_count_or_method = methods
    return CLS[kind]("c", o)


def feed(c, kind, xs):
    cell = {"float": str, "int": str, "text": lambda v: "x" * v}[kind]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.update(pd.Series([cell(x) for x in xs], dtype=object))


def drawn(ctx, kind, name, n, pool=None):
    pool = POOL[kind] if pool is None else pool
    return [ctx.pick("%s%d" % (name, i), pool) for i in range(n)]


def bins_of(ctx, c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = c.profile["histogram"]
    if h is None or h["bin_counts"] is None:
        ctx.fail("no histogram")
        return None
    ctx.check("one more edge than bins", len(h["bin_edges"]) == len(h["bin_counts"]) + 1)
    return len(h["bin_counts"])


def single(xs, method):
    if len(set(xs)) == 1:
        return {1}
    xs = np.array(xs)
    k = len(np.histogram_bin_edges(xs, bins=method)) - 1
    return {min(k, 100000)}


def batch(ctx, kind, n, repeat=1, far=False):
    """one batch: the number numpy gives for the method and these values"""
    pool = [0.0, 0.25, 1.0] if far else None
    xs = drawn(ctx, kind, "x", n, pool) * repeat
    if far:  # one value far away: thousands of bins
        xs.append(ctx.pick("far", [1e3, -1e4, 1e6]))
    method = ctx.pick("method", METHODS if not far else ["fd", "auto", "scott"])
    c = make(kind, ctx.pick("alone", [method, [method]]))
    feed(c, kind, xs)
    got = bins_of(ctx, c)
    ctx.check("bins of the method", got in single(xs, method))


def several(ctx, kind, n):
    """several methods: the histogram is that of one of them"""
    xs = drawn(ctx, kind, "x", n) * 2
    two = ctx.pick("methods", [["sqrt", "rice"], ["fd", "sturges"], ["doane", "scott"],
                               ["rice", "auto", "sqrt"]])
    c = make(kind, list(two))
    feed(c, kind, xs)
    ok = set()
    for m in two:
        ok |= single(xs, m)
    ctx.check("bins of one of the methods", bins_of(ctx, c) in ok)


def moments(xs):
    n = len(xs)
    m = sum(xs) / n
    v = sum((x - m) ** 2 for x in xs) / n
    s = (sum((x - m) ** 3 for x in xs) / n) / v ** 1.5 if v > 0 else math.nan
    return n, v, s


def of_data(xs, method):
    """the bins a method gives for all values of a merged profile"""
    if len(set(xs)) == 1:
        return {1}
    n, v, skew = moments(xs)
    wide = max(xs) - min(xs)
    if method in BY_COUNT:
        return whole(BY_COUNT[method](n))
    sd = math.sqrt(v * n / (n - 1))
    if method == "scott":
        return whole(wide / ((24.0 * math.pi ** 0.5 / n) ** (1.0 / 3.0) * sd))
    if n <= 2:
        return {1}
    g = math.sqrt(6.0 * (n - 2) / ((n + 1.0) * (n + 3)))
    return whole(1.0 + math.log2(n) + math.log2(1.0 + abs(skew) / g))


def merge(ctx, kind, sizes, repeat=1):
    method = ctx.pick("method", ["sturges", "rice", "sqrt", "scott", "doane"])
    c, xs = None, []
    for i, n in enumerate(sizes):
        part = drawn(ctx, kind, "x%d_" % i, n) * repeat
        d = make(kind, [method])
        feed(d, kind, part)
        xs += part
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = d if c is None else c + d
    if not xs:
        return
    ctx.check("bins of the method over all the data", bins_of(ctx, c) in of_data(xs, method))


def updates(ctx, kind, sizes, repeat=1):
    """methods that only count: the same number of bins however the data is batched"""
    method = ctx.pick("method", ["sturges", "rice", "sqrt"])
    c, xs = make(kind, [method]), []
    for i, n in enumerate(sizes):
        part = drawn(ctx, kind, "x%d_" % i, n) * repeat
        feed(c, kind, part)
        xs += part
    ctx.check("bins of the method over all the data", bins_of(ctx, c) in of_data(xs, method))


F, I, T = "float", "int", "text"
HARNESSES = [
    Harness(rule,
            quick=[dict(method=m, n=n) for m in METHODS for n in (0, 1, 2, 5, 64)] +
            [dict(method="sturges", n=8), dict(method="sqrt", n=4)] +
            [dict(method=m, n=9, edges=True) for m in METHODS] +
            [dict(method=m, n=7, flat=True) for m in ("scott", "doane", "fd", "auto")],
            thorough=[dict(method=m, n=n, edges=e) for m in METHODS for n in (3, 4, 1000, 99)
                      for e in (False, True)],
            bounds="any extremes, deviation and quartiles giving at most 12 bins; counts 0, 1, 2, "
            "5, 7, 9, 64 (thorough: 3, 4, 99, 1000)"),
    Harness(unknown, quick=[dict(n=0), dict(n=3)], bounds="six names that are not methods"),
    Harness(batch, quick=[dict(kind=F, n=2), dict(kind=F, n=3), dict(kind=F, n=3, repeat=3),
                          dict(kind=I, n=3), dict(kind=T, n=3), dict(kind=F, n=2, repeat=2, far=True)],
            thorough=[dict(kind=F, n=4), dict(kind=I, n=4, repeat=2), dict(kind=F, n=3, repeat=3, far=True)],
            bounds="up to 3 numbers (thorough 4), each also repeated, also with one far away so that "
            "methods ask for more bins than the limit; every method"),
    Harness(several, quick=[dict(kind=F, n=3), dict(kind=I, n=2)],
            thorough=[dict(kind=F, n=4)], bounds="2-3 methods at once, 2-3 numbers"),
    Harness(merge, quick=[dict(kind=F, sizes=[1, 1]), dict(kind=F, sizes=[2, 1]),
                          dict(kind=I, sizes=[2, 1], repeat=3), dict(kind=T, sizes=[1, 2]),
                          dict(kind=F, sizes=[2, 0])],
            thorough=[dict(kind=F, sizes=[2, 2]), dict(kind=I, sizes=[1, 1, 1], repeat=2)],
            bounds="2 profiles of up to 2 numbers, each also repeated"),
    Harness(updates, quick=[dict(kind=F, sizes=[2, 1]), dict(kind=I, sizes=[1, 2], repeat=3),
                            dict(kind=T, sizes=[1, 1])],
            thorough=[dict(kind=F, sizes=[2, 2], repeat=2), dict(kind=I, sizes=[1, 1, 1])],
            bounds="2 batches of up to 2 numbers"),
]
