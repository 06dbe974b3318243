"""P28: float precision statistics under batching and merging."""
from fractions import Fraction

import numpy as np
import pandas as pd

from ..engine import SymText
from ..run import Harness
from .util import FloatColumn, mean, num_options, var_biased

ASSUMPTIONS = [
    "statistics: numerals without leading/trailing zeros, so the number of significant digits is "
    "the length of the text (a symbolic integer 0..400, 0 standing for the numeral 0)",
    "digit counting: plain decimals and exponents up to the given length over a small alphabet, "
    "mantissas of exponent forms without trailing zeros",
]


def options(ratio=None):
    o = num_options("float", ("precision",))
    for n in ("min", "max", "sum", "mode", "median", "variance", "num_zeros", "num_negatives"):
        getattr(o, n).is_enabled = False
    if ratio is not None:
        o.precision.sample_ratio = ratio
    return o


class Column:
    """a float column; symbolic numerals are matched as floats"""

    def __init__(self, ctx, ratio=None):
        self.ctx = ctx
        self.c = FloatColumn("c", options(ratio))

    def update(self, ns):
        if self.ctx.symbolic:
            old = FloatColumn.__dict__["_is_each_row_float"]
            FloatColumn._is_each_row_float = classmethod(
                lambda cls, s: pd.Series([True] * len(s), index=s.index, dtype=bool))
            try:
                if ns and isinstance(ns[0], int):
                    return self.c.update(pd.Series(["1" * n or "0" for n in ns], dtype=object))
                self.c.update(pd.Series([SymText(n) for n in ns], dtype=object))
            finally:
                FloatColumn._is_each_row_float = old
        else:
            self.c.update(pd.Series(["1" * int(n) or "0" for n in ns], dtype=object))


def check(ctx, c, ns, tag=""):
    p = c._precision
    ctx.check_eq(tag + "sample size", p["sample_size"], len(ns))
    ctx.check_eq(tag + "min", p["min"], ctx.min(ns))
    ctx.check_eq(tag + "max", p["max"], ctx.max(ns))
    ctx.check_eq(tag + "sum", p["sum"], ctx.sum(ns))
    ctx.check_eq(tag + "mean", p["mean"], mean(ctx, ns))
    ctx.check_eq(tag + "variance", p["biased_var"], var_biased(ctx, ns))


def lengths(ctx, tag, n, pick=False):
    if pick:
        return [ctx.pick("%s%d" % (tag, i), [0, 1, 7]) for i in range(n)]
    return ctx.ints(tag, n, 0, 400, relaxed=True)


def batches(ctx, sizes, pick=False):
    c, xs = Column(ctx), []
    for b, n in enumerate(sizes):
        v = lengths(ctx, "d%d_" % b, n, pick)
        c.update(v)
        xs += v
    check(ctx, c.c, xs)


def merges(ctx, sizes, after=0):
    parts = []
    for b, n in enumerate(sizes):
        c, v = Column(ctx), lengths(ctx, "d%d_" % b, n)
        if n:
            c.update(v)
        parts.append((c, v))
    before = [dict(c.c._precision) for c, _ in parts]
    m, xs = parts[0]
    xs = list(xs)
    for c, v in parts[1:]:
        new = Column(ctx)
        old = FloatColumn.precision
        if ctx.symbolic:  # without rounding to significant figures
            FloatColumn.precision = property(lambda self: dict(self._precision))
        try:
            new.c = m.c + c.c
        finally:
            FloatColumn.precision = old
        m = new
        xs += v
    if after:
        v = lengths(ctx, "z", after)
        m.update(v)
        xs += v
    if xs:
        check(ctx, m.c, xs)
    else:
        ctx.check("no data", m.c._precision["min"] is None)
    for (c, v), b in zip(parts, before):
        for k in b:
            if b[k] is None or c.c._precision[k] is None:
                ctx.check("operand unchanged", b[k] is c.c._precision[k])
            else:
                ctx.check_eq("operand unchanged", c.c._precision[k], b[k])


def ratio(ctx, n):
    """a sample ratio profiles that share of the values, at least one"""
    r = ctx.pick("r", [0.01, 0.25, 0.5, 0.75, 1.0])
    c = Column(ctx, r)
    ns = lengths(ctx, "d", n)
    c.update(ns)
    p = c.c._precision
    ctx.check_eq("sample size", p["sample_size"], max(1, int(n * r)))
    ctx.check_le("min", ctx.min(ns), p["min"])
    ctx.check_le("max", p["max"], ctx.max(ns))
    ctx.check_le("mean above min", p["min"], p["mean"])
    ctx.check_le("mean below max", p["mean"], p["max"])
    ctx.check_eq("sum", p["sum"], p["mean"] * max(1, int(n * r)))


def digits_of(text):
    """significant digits of a numeral, None if the definition leaves it open"""
    m, e, _ = text.strip().lower().lstrip("+-").partition("e")
    if e and m[-1:] in "0.":
        return None
    a, _, b = m.partition(".")
    b = b.rstrip("0")
    if not b and "." in m and a.endswith("0"):
        return None  # trailing zeros before a point without decimals
    return len((a + b).lstrip("0").rstrip("0"))


def count(ctx, shape):
    """the digits counted for one numeral"""
    text = "".join(ctx.pick("c%d" % i, list(a)) for i, a in enumerate(shape))
    want = digits_of(text)
    try:
        float(text)
    except ValueError:
        return
    if want is None or "nan" in text:
        return
    c = FloatColumn("c", options())
    c.update(pd.Series([text], dtype=object))
    ctx.check_eq("digits of the numeral", c._precision["sum"], want)
    ctx.check_eq("one value", c._precision["sample_size"], 1)


D = "0.7"
HARNESSES = [
    Harness(batches, quick=[dict(sizes=s) for s in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2],
                                                    [1, 1, 1], [2, 0, 1], [4], [1, 1, 1, 1])] + [
                dict(sizes=[2, 1], pick=True), dict(sizes=[1, 1, 1], pick=True)],
            thorough=[dict(sizes=s) for s in ([5], [3, 2], [2, 1, 2], [1, 1, 1, 1, 1], [3, 3])],
            bounds="up to 4 values (thorough 6) in up to 4 batches (thorough 5)",
            stubs=["FloatColumn._is_each_row_float (symbolic mode only): the symbolic numerals "
                   "match as floats", "FloatColumn.precision (symbolic mode only): not rounded to "
                   "significant figures"]),
    Harness(merges, quick=[dict(sizes=s, after=a) for a in (0, 1) for s in (
        [1, 1], [2, 1], [1, 2], [0, 1], [1, 0], [0, 0], [1, 1, 1])] + [dict(sizes=[2, 2])],
            thorough=[dict(sizes=s, after=a) for a in (0, 2) for s in (
                [2, 2], [3, 2], [2, 0, 2], [1, 1, 1, 1])],
            bounds="up to 3 operands of up to 2 values (thorough 4 operands, 5 values)"),
    Harness(ratio, quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)],
            bounds="up to 3 values (thorough 4), five sample ratios"),
    Harness(count, quick=[dict(shape=[D] * n) for n in (1, 2, 3, 4)] + [
        dict(shape=["+- ", D, D, D]), dict(shape=["1.", "0.5", "1.", "eE", "-+3", "07"]),
        dict(shape=[D, D, D, " "])],
            thorough=[dict(shape=["0.37"] * 5), dict(shape=["+-", D, D, D, D, D])],
            bounds="numerals of up to 6 characters"),
]
