"""P02: merging numeric column profiles equals profiling the union."""
import pandas as pd

from ..run import Harness
from .util import (ODD, cells, check_basic, check_odd, check_same, check_scaled, column, odd_cells,
                   scaled_column, snapshot, values)


def profile_of(ctx, kind, name, n, bias=True, on=()):
    c = column(kind, on=on, bias=bias)
    v = values(ctx, kind, name, n)
    if n:
        c.update(cells(ctx, kind, v))
    return c, v


def merge(ctx, kind, sizes, after=0, bias=(True, True)):
    """(((c0 + c1) + c2) + ...), then `after` more values, == definition over all values"""
    parts = [profile_of(ctx, kind, "x%d_" % i, n, bias[min(i, 1)]) for i, n in enumerate(sizes)]
    before = [snapshot(c) for c, _ in parts]
    m, xs = parts[0][0], list(parts[0][1])
    for c, v in parts[1:]:
        m = m + c
        xs += v
    b = all(bias)
    check_basic(ctx, m, xs, kind, tag="merged ", bias=b)
    if after:
        v = values(ctx, kind, "y", after)
        m.update(cells(ctx, kind, v))
        xs += v
        check_basic(ctx, m, xs, kind, tag="updated after merge ", bias=b)
    for i, (c, _) in enumerate(parts):
        check_same(ctx, "operand %d unchanged: " % i, before[i], snapshot(c))


def twice(ctx, kind, n, on=()):
    """a column merged with itself"""
    c, v = profile_of(ctx, kind, "x", n, on=on)
    before = snapshot(c)
    check_basic(ctx, c + c, v + v, kind, tag="merged with itself ")
    check_same(ctx, "operand unchanged: ", before, snapshot(c))


def merge_mixed(ctx, kind, sizes):
    """operands that saw non-numeric cells: match counts and ratios add up"""
    total, xs, m = 0, [], None
    for b, n in enumerate(sizes):
        c = column(kind)
        v = values(ctx, kind, "x%d_" % b, n)
        cs = []
        for i, x in enumerate(v):
            if ctx.choose("junk%d_%d" % (b, i), 2):
                cs.append("abc")
            else:
                cs.append(x)
                xs.append(x)
        total += n
        c.update(cells(ctx, kind, cs))
        m = c if m is None else m + c
    check_basic(ctx, m, xs, kind, sample_size=total)
    ctx.check_eq("data_type_ratio", m.data_type_ratio * total, len(xs))


def infinite(ctx, sizes, after=0):
    """operands holding infinities"""
    m, xs = None, []
    for b, n in enumerate(sizes):
        c = column("float", on=("histogram_and_quantiles",))
        cs, v = odd_cells(ctx, "x%d_" % b, n)
        if n:
            c.update(pd.Series(cs))
        xs += v
        m = c if m is None else m + c
    check_odd(ctx, m, xs, "merged ")
    if after:
        cs, v = odd_cells(ctx, "y", after)
        m.update(pd.Series(cs))
        xs += v
        check_odd(ctx, m, xs, "updated after merge ")


def scales(ctx, sizes):
    """very small and very large numbers"""
    check_scaled(ctx, *scaled_column(ctx, sizes, lambda: column("float"), True))



KINDS = ("float", "int", "text")
HARNESSES = [
    Harness(twice, quick=[dict(kind=k, n=2) for k in ("float", "int", "text")],
            thorough=[dict(kind="float", n=3)], bounds="columns of 2 (thorough 3) values"),
    Harness(scales, quick=[dict(sizes=[1, 1]), dict(sizes=[1, 2])],
            thorough=[dict(sizes=[2, 2]), dict(sizes=[1, 1, 1])],
            bounds="values 1, 4, -2, 0 times 1e-9, 1e-3, 1e7 or 1e15, up to 3 (thorough 4) cells"),
    Harness(
        merge,
        quick=[dict(kind=k, sizes=s, after=a) for k in KINDS
               for s, a in (([1, 1], 0), ([2, 1], 0), ([1, 2], 0), ([2, 2], 1), ([0, 2], 1),
                            ([2, 0], 1), ([1, 1, 1], 0), ([3, 4], 0), ([0, 0], 2))] +
        [dict(kind=k, sizes=[2, 1], after=1, bias=b) for k in KINDS
         for b in ((False, False), (True, False), (False, True))],
        thorough=[dict(kind=k, sizes=s, after=a, bias=b) for k in KINDS
                  for b in ((True, True), (False, True))
                  for s, a in (([3, 3], 2), ([1, 4], 1), ([5, 1], 1), ([2, 2, 2], 1),
                               ([0, 3], 2), ([3, 0], 2), ([1, 1, 1, 1], 1), ([0, 2, 2], 1),
                               ([6, 6], 0), ([1] * 6, 0))],
        bounds="2-3 operands of up to 4 values (thorough: 6 operands, 12 values), then further "
        "updates"),
    Harness(
        merge_mixed,
        quick=[dict(kind=k, sizes=s) for k in ("float", "int") for s in ([1, 1], [2, 1], [1, 2])],
        thorough=[dict(kind=k, sizes=s) for k in ("float", "int")
                  for s in ([2, 2], [1, 3], [1, 1, 1], [3, 1])],
        bounds="up to 3 cells (thorough 4), each a number or a non-numeric text"),
    Harness(infinite, quick=[dict(sizes=[1, 1]), dict(sizes=[2, 1]), dict(sizes=[0, 1], after=1),
                             dict(sizes=[1, 1], after=1)],
            thorough=[dict(sizes=[1, 2], after=1), dict(sizes=[1, 1, 1]), dict(sizes=[2, 2])],
            bounds="up to 3 cells, each one of " + ", ".join(ODD)),
]
