"""Shared harness helpers (usable in symbolic and concrete mode)."""
from __future__ import annotations

import copy

import numpy as np
import pandas as pd

from dataprofiler.profilers import (  # noqa: F401
    FloatColumn,
    IntColumn,
    TextColumn,
)
from dataprofiler.profilers import profiler_options as PO


def put(obj, **state):
    """set internal state; not judged if the code no longer keeps it under that name"""
    for name, value in state.items():
        if not hasattr(obj, name):
            raise AttributeError("no attribute " + name)
        setattr(obj, name, value)


def num_options(kind, on=(), bias=True):
    """Column options with only cheap statistics plus those in `on`."""
    cls = {"float": PO.FloatOptions, "int": PO.IntOptions, "text": PO.TextOptions}[kind]
    o = cls()
    off = ["histogram_and_quantiles", "median", "mode", "median_abs_deviation", "skewness",
           "kurtosis"]
    for n in off:
        if n not in on:
            getattr(o, n).is_enabled = False
    if kind == "float" and "precision" not in on:
        o.precision.is_enabled = False
    if kind == "text":
        o.vocab.is_enabled = "vocab" in on
    o.bias_correction.is_enabled = bias
    return o


def column(kind, on=(), name="c", bias=True):
    cls = {"float": FloatColumn, "int": IntColumn, "text": TextColumn}[kind]
    return cls(name, num_options(kind, on, bias))


def values(ctx, kind, name, n, lim=100000):
    if kind == "float":
        return ctx.reals(name, n, -lim, lim)
    if kind == "int":
        return ctx.ints(name, n, -lim, lim, relaxed=True)
    return ctx.ints(name, n, 0, 3000, relaxed=True)


def cells(ctx, kind, vals):
    """Series as the profiler sees it (text cells)"""
    if kind == "text":
        vals = [ctx.text_of_len(v) for v in vals]
    return ctx.series(vals)


def mean(ctx, xs):
    return ctx.sum(xs) / len(xs)


def var_biased(ctx, xs):
    m = mean(ctx, xs)
    return ctx.sum([(x - m) * (x - m) for x in xs]) / len(xs)


def var_unbiased(ctx, xs):
    m = mean(ctx, xs)
    return ctx.sum([(x - m) * (x - m) for x in xs]) / (len(xs) - 1)


def check_basic(ctx, c, xs, kind, sample_size=None, tag="", bias=True):
    """basic statistics of column profile c equal the definition over xs"""
    n = len(xs)
    ctx.check_eq(tag + "match_count", c.match_count, n)
    ctx.check_eq(tag + "sample_size", c.sample_size, n if sample_size is None else sample_size)
    if n == 0:
        return
    ctx.check_eq(tag + "min", c.min, ctx.min(xs))
    ctx.check_eq(tag + "max", c.max, ctx.max(xs))
    ctx.check_eq(tag + "sum", c.sum, ctx.sum(xs))
    ctx.check_eq(tag + "mean", c.mean, mean(ctx, xs))
    if n > 1 or not bias:
        var = var_unbiased(ctx, xs) if bias else var_biased(ctx, xs)
        ctx.check_eq(tag + "variance", c.variance, var)
        sd = c.stddev
        ctx.check_eq(tag + "stddev^2", sd * sd, var)
        ctx.check(tag + "stddev>=0", sd >= 0)
    else:
        ctx.check(tag + "variance undefined", ctx.isnan(c.variance))
    if kind != "text":
        ctx.check_eq(tag + "num_zeros", c.num_zeros, ctx.count([x == 0 for x in xs]))
        ctx.check_eq(tag + "num_negatives", c.num_negatives, ctx.count([x < 0 for x in xs]))


def snapshot(c):
    """the observable statistics of a column profile"""
    return dict((k, getattr(c, k)) for k in (
        "match_count", "sample_size", "min", "max", "sum", "mean", "variance", "num_zeros",
        "num_negatives"))


def check_same(ctx, tag, a, b):
    for k in a:
        if a[k] is None or b[k] is None:
            ctx.check(tag + k, a[k] is b[k])
        else:
            ctx.check_eq(tag + k, a[k], b[k])


ODD = ("1", "4", "-2", "0", "inf", "-inf")


def odd_cells(ctx, tag, n, odd=ODD):
    """cells among them infinities, as texts and as numbers"""
    cs = [ctx.pick("%s%d" % (tag, i), odd) for i in range(n)]
    return cs, [float(c) for c in cs]


def same_number(ctx, name, got, want):
    if want != want:
        ctx.check(name, got is not None and got != got)
    else:
        ctx.check(name, got is not None and got == want)


def check_odd(ctx, c, xs, tag=""):
    """counts, min, max, sum and mean of values with infinities"""
    pos, neg = float("inf") in xs, float("-inf") in xs
    total = float("nan") if pos and neg else sum(xs)
    ctx.check_eq(tag + "match count", c.match_count, len(xs))
    if not xs:
        return
    same_number(ctx, tag + "min", c.min, min(xs))
    same_number(ctx, tag + "max", c.max, max(xs))
    same_number(ctx, tag + "sum", c.sum, total)
    same_number(ctx, tag + "mean", c.mean, total / len(xs))
    ctx.check_eq(tag + "zeros", c.num_zeros, len([x for x in xs if x == 0]))
    ctx.check_eq(tag + "negatives", c.num_negatives, len([x for x in xs if x < 0]))
    if pos or neg:
        v = c.variance
        ctx.check(tag + "variance undefined", v is None or v != v)


SCALES = (1e-9, 1e-3, 1e7, 1e15)
UNIT = (1, 4, -2, 0)


def scaled_cells(ctx, tag, n, scale, unit=UNIT):
    """texts of unit values times a scale, and the unit values"""
    us = [ctx.pick("%s%d" % (tag, i), unit) for i in range(n)]
    return [repr(u * scale) for u in us], us


def scaled_column(ctx, sizes, make, merge=False, scales=SCALES, unit=UNIT):
    """column over very small or very large numbers: (column, unit values, scale)"""
    scale = ctx.pick("scale", scales)
    m, us = None, []
    for b, n in enumerate(sizes):
        cs, v = scaled_cells(ctx, "u%d_" % b, n, scale, unit)
        c = make() if m is None or merge else m
        c.update(pd.Series(cs, dtype=object))
        m = m + c if merge and m is not None else c
        us += v
    return m, us, scale


def check_scaled(ctx, c, us, s, tag=""):
    n = len(us)
    ctx.check_eq(tag + "match count", c.match_count, n)
    ctx.check_eq(tag + "min", c.min / s, min(us))
    ctx.check_eq(tag + "max", c.max / s, max(us))
    ctx.check_eq(tag + "sum", c.sum / s, sum(us))
    ctx.check_eq(tag + "mean", c.mean / s, sum(us) / n)
    ctx.check_eq(tag + "zeros", c.num_zeros, len([u for u in us if u == 0]))
    ctx.check_eq(tag + "negatives", c.num_negatives, len([u for u in us if u < 0]))
    if n > 1:
        m = sum(us) / n
        v = sum((u - m) ** 2 for u in us) / (n - 1)
        ctx.check_eq(tag + "variance", c.variance / s / s, v)
        ctx.check_eq(tag + "standard deviation", c.stddev / s, v ** 0.5)
