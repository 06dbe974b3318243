"""P01: numeric statistics equal their definition under any batch split."""
import pandas as pd

from ..run import Harness
from .util import (ODD, cells, check_basic, check_odd, check_scaled, column, odd_cells,
                   scaled_column, values)

ASSUMPTIONS = [
    "values lie in [-100000,100000] (text lengths in [0,3000]); cells that are infinite are "
    "checked in a harness of their own, over a list of spellings"
]


def batches(ctx, kind, sizes, bias=True):
    """update() with each batch in turn == definition over all values"""
    c = column(kind, bias=bias)
    xs = []
    for b, n in enumerate(sizes):
        v = values(ctx, kind, "x%d_" % b, n)
        c.update(cells(ctx, kind, v))
        xs += v
    check_basic(ctx, c, xs, kind, bias=bias)


def mixed_batches(ctx, kind, sizes):
    """cells that are not numbers are counted as samples and otherwise ignored"""
    c = column(kind)
    xs, total = [], 0
    for b, n in enumerate(sizes):
        v = values(ctx, kind, "x%d_" % b, n)
        cs = []
        for i, x in enumerate(v):
            if ctx.choose("junk%d_%d" % (b, i), 2):
                cs.append("abc")
            else:
                cs.append(x)
                xs.append(x)
        total += n
        c.update(cells(ctx, kind, cs))
    check_basic(ctx, c, xs, kind, sample_size=total)
    if total:
        ctx.check_eq("data_type_ratio", c.data_type_ratio * total, len(xs))


def infinite(ctx, sizes):
    """infinities count as values; what they leave undefined is reported as undefined"""
    c, xs = column("float"), []
    for b, n in enumerate(sizes):
        cs, v = odd_cells(ctx, "x%d_" % b, n)
        c.update(pd.Series(cs))
        xs += v
    check_odd(ctx, c, xs)


def scales(ctx, sizes):
    """very small and very large numbers"""
    check_scaled(ctx, *scaled_column(ctx, sizes, lambda: column("float")))


KINDS = ("float", "int", "text")
HARNESSES = [
    Harness(scales, quick=[dict(sizes=[2]), dict(sizes=[1, 2])],
            thorough=[dict(sizes=[2, 2]), dict(sizes=[1, 1, 1])],
            bounds="values 1, 4, -2, 0 times 1e-9, 1e-3, 1e7 or 1e15, up to 3 (thorough 4) cells"),
    Harness(
        batches,
        quick=[dict(kind=k, sizes=s) for k in KINDS
               for s in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [2, 0, 1],
                         [4, 3], [6], [1, 5], [1, 1, 1, 1])] +
        [dict(kind=k, sizes=s, bias=False) for k in KINDS for s in ([1], [2, 1], [1, 1, 1])] +
        [dict(kind="float", sizes=[1] * 6)],
        thorough=[dict(kind=k, sizes=s, bias=b) for b in (True, False) for k in KINDS
                  for s in ([4], [2, 2], [3, 2], [2, 3], [1, 3, 1], [2, 1, 2], [1, 1, 1, 1],
                            [3, 3], [5], [8], [6, 5], [2, 2, 2, 2], [1] * 6, [2] * 6, [1] * 7)],
        bounds="up to 7 values, up to 6 batches (thorough: 12 values, 7 batches)"),
    Harness(
        mixed_batches,
        quick=[dict(kind=k, sizes=s) for k in ("float", "int")
               for s in ([2], [1, 1], [2, 1], [1, 2])],
        thorough=[dict(kind=k, sizes=s) for k in ("float", "int")
                  for s in ([3], [2, 2], [1, 1, 2], [3, 1])],
        bounds="up to 3 cells (thorough 4), each a number or a non-numeric text"),
    Harness(infinite, quick=[dict(sizes=s) for s in ([2], [1, 1], [1, 2], [1, 1, 1])],
            thorough=[dict(sizes=s) for s in ([3], [2, 1], [1, 2, 1], [2, 2])],
            bounds="up to 3 cells in up to 3 batches, each one of " + ", ".join(ODD)),
]
