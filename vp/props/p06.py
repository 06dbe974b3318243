"""P06: null cells of a column are counted and located exactly."""
import re

import pandas as pd

from dataprofiler.profilers.profile_builder import StructuredColProfiler
from dataprofiler.profilers.profiler_options import StructuredOptions

from ..run import Harness

ASSUMPTIONS = [
    "row indices are non-negative integers (the code warns that other indices are not tracked)",
    "cells range over representatives of every null pattern, near misses and ordinary values",
]
CELLS = ["5", "nan", "", "x", "None", "--", "  ", "nan0", "NULL", "_", "n", "0",
         " ", "   ", "-", "---", "__", "- -", "-_", " nan", "nan ", "NaN", "NAN", "nAN", "none",
         "NONE", "null", "Null", "nulls", "N", "na", "n/a", "-1", "_x", "x ", "X", "nannan"]


def plain_options(on=(), nulls=None, col_nulls=None):
    o = StructuredOptions(null_values=nulls, column_null_values=col_nulls)
    o.data_labeler.is_enabled = False
    for n in ("int", "float", "datetime", "text", "order", "category"):
        getattr(o, n).is_enabled = n in on
    o.multiprocess.is_enabled = False
    return o


def is_null(cell, nulls=None):
    """specification of the null patterns"""
    if nulls is None:
        return (cell.lower() in ("", "nan", "none", "null") or
                any(cell and set(cell) == {ch} for ch in " -_"))
    for k, flag in nulls.items():
        if cell == k or (flag & re.IGNORECASE and cell.lower() == k.lower()):
            return True
    return False


def check_nulls(ctx, c, want, n, tag=""):
    """want: list of (spelling, position) of the nulls among n cells"""
    ctx.check_eq(tag + "sample size", c.sample_size, n)
    ctx.check_eq(tag + "null count", c.null_count, len(want))
    if n:
        ctx.check_eq(tag + "null ratio", c.null_ratio * n, len(want))
    ctx.check(tag + "null types", sorted(set(c.null_types)) == sorted({s for s, _ in want}))
    ctx.check(tag + "no repeated null types", len(set(c.null_types)) == len(c.null_types))
    got = sorted((s, i) for s, ix in c.null_types_index.items() for i in ix)
    ctx.check(tag + "null positions", got == sorted(want))


def batch(ctx, tag, n, kinds, start=0, nulls=None):
    cells = [CELLS[ctx.choose("%s_%d" % (tag, i), kinds)] for i in range(n)]
    return cells, [(c, start + i) for i, c in enumerate(cells) if is_null(c, nulls)]


def updates(ctx, sizes, kinds, starts, merge=False):
    """profile over batches (or merged profiles) whose indices start anywhere"""
    lo = hi = None
    want, n, c = [], 0, None
    for b, size in enumerate(sizes):
        st = starts[b] if isinstance(starts[b], int) else ctx.pick("start%d" % b, starts[b])
        cells, nulls = batch(ctx, "c%d" % b, size, kinds, st)
        s = pd.Series(cells, index=range(st, st + size), dtype=object, name="a")
        if merge or c is None:
            p = StructuredColProfiler(options=plain_options(("text",)))
            p.update_profile(s)
            c = p if c is None else c + p
        else:
            c.update_profile(s)
        first, last = st, st + size - 1
        if lo is not None and not (last < lo or first > hi):
            shift = hi + 1
            nulls = [(t, i + shift) for t, i in nulls]
            first, last = first + shift, last + shift
        lo = first if lo is None else min(lo, first)
        hi = last if hi is None else max(hi, last)
        want += nulls
        n += size
        check_nulls(ctx, c, want, n)
        text = c.profiles["data_type_profile"]._profiles["text"]
        ctx.check_eq("non-null cells reach the statistics", text.sample_size, n - len(want))


def spelling(ctx, n, kinds, nulls=None):
    """null patterns decide cell by cell, the other cells are passed on unchanged"""
    nv = StructuredColProfiler(options=plain_options(nulls=nulls))._null_values
    cells, want = batch(ctx, "c", n, kinds, 0, nulls)
    s = pd.Series(cells, dtype=object, name="a")
    clean, base = StructuredColProfiler.clean_data_and_get_base_stats(s, n, nv)
    ctx.check("clean cells", list(clean.values) == [c for c in cells if not is_null(c, nulls)])
    ctx.check("clean rows", list(clean.index) == [
        i for i, c in enumerate(cells) if not is_null(c, nulls)])
    ctx.check_eq("null count", base["null_count"], len(want))
    ctx.check_eq("sample size", base["sample_size"], n)
    got = sorted((k, i) for k, ix in base["null_types"].items() for i in ix)
    ctx.check("null positions", got == sorted(want))


def sampled(ctx, n, min_true):
    """sampled cleaning: a prefix of the given order, long enough for the minimum"""
    cells, _ = batch(ctx, "c", n, 2)
    rest, order = list(range(n)), []
    for i in range(n):
        order.append(rest.pop(ctx.choose("o%d" % i, len(rest))))
    size = ctx.choose("size", n) + 1
    s = pd.Series(cells, dtype=object, name="a")
    clean, base = StructuredColProfiler.clean_data_and_get_base_stats(
        s, size, StructuredColProfiler()._null_values, min_true, [order])
    k = 0
    while True:
        k = min(k + size, n)
        if k == n or sum(1 for i in order[:k] if not is_null(cells[i])) >= min_true:
            break
    used = order[:k]
    ctx.check_eq("sample size", base["sample_size"], k)
    ctx.check_eq("null count", base["null_count"], sum(1 for i in used if is_null(cells[i])))
    ctx.check("clean rows", sorted(clean.index) == sorted(
        i for i in used if not is_null(cells[i])))
    ctx.check("clean cells", all(cells[i] == v for i, v in clean.items()))
    got = sorted((t, i) for t, ix in base["null_types"].items() for i in ix)
    ctx.check("null positions", got == sorted((cells[i], i) for i in used if is_null(cells[i])))


def positions(ctx, nulls):
    """any batch sizes, index offsets and null positions: no two nulls share a row"""
    c = StructuredColProfiler()
    lo = hi = None
    total = nullsum = 0
    recorded = []
    for b, k in enumerate(nulls):
        st = ctx.int("start%d" % b, 0, 1000)
        size = ctx.int("size%d" % b, 1, 1000)
        ctx.assume(size >= k)
        pos = [ctx.int("p%d_%d" % (b, i), 0, 999) for i in range(k)]
        for i, p in enumerate(pos):
            ctx.assume(p < size)
            if i:
                ctx.assume(p > pos[i - 1])
        first, last = st, st + size - 1
        ids = [st + p for p in pos]
        c._update_base_stats(dict(
            sample_size=size, sample=[], null_count=k, null_ratio=k / size,
            null_types={"nan": list(ids)} if k else {}, min_id=first, max_id=last))
        if lo is not None:
            ov = ctx.not_(ctx.any([last < lo, first > hi]))
            if bool(ov):
                ids = [i + hi + 1 for i in ids]
                first, last = first + hi + 1, last + hi + 1
        lo = first if lo is None else ctx.min([lo, first])
        hi = last if hi is None else ctx.max([hi, last])
        recorded += ids
        total = total + size
        nullsum += k
    ctx.check_eq("sample size", c.sample_size, total)
    ctx.check_eq("null count", c.null_count, nullsum)
    ctx.check_eq("null ratio", c.null_ratio * total, nullsum)
    got = list(c.null_types_index.get("nan", ()))
    ctx.check("one row per null", len(got) == nullsum)
    for r in recorded:
        ctx.check("null row recorded", ctx.any([g == r for g in got]))


OV = [[0, 2], [0, 1, 3, 9]]
HARNESSES = [
    Harness(spelling,
            quick=[dict(n=1, kinds=len(CELLS)), dict(n=2, kinds=8),
                   dict(n=1, kinds=len(CELLS), nulls={"NA": re.IGNORECASE | re.ASCII,
                                                      "x": re.ASCII, "n": re.MULTILINE}),
                   dict(n=2, kinds=6, nulls={"x": 0, "NULL": 0}),
                   dict(n=1, kinds=12, nulls={"N": re.IGNORECASE, "X": 0, "5": 0})],
            thorough=[dict(n=3, kinds=8), dict(n=2, kinds=len(CELLS)),
                      dict(n=3, kinds=6, nulls={"x": 0, "none": re.IGNORECASE})],
            bounds="up to 2 cells (thorough 3) over 37 representative spellings"),
    Harness(sampled,
            quick=[dict(n=3, min_true=m) for m in (0, 1, 2)],
            thorough=[dict(n=4, min_true=m) for m in (0, 1, 2, 3)],
            bounds="3 (thorough 4) cells, every sampling order, sample size and minimum"),
    Harness(updates, stubs=["cell texts from a finite list of representatives"],
            quick=[dict(sizes=[2, 2], kinds=2, starts=[[0, 2], [0, 1, 2, 3, 9]]),
                   dict(sizes=[2, 1], kinds=4, starts=[0, [0, 5]]),
                   dict(sizes=[1, 1, 1], kinds=2, starts=[[0, 1], [0, 1, 4], [0, 1, 2, 4]]),
                   dict(sizes=[2, 2], kinds=2, starts=[[0, 2], [0, 1, 2, 9]], merge=True),
                   dict(sizes=[2, 1], kinds=4, starts=[0, [0, 5]], merge=True)],
            thorough=[dict(sizes=[2, 2, 1], kinds=3, starts=[[0, 2], [0, 1, 3], [0, 2, 4, 7]],
                           merge=m) for m in (False, True)] +
            [dict(sizes=[3, 2], kinds=3, starts=[0, [0, 1, 2, 3, 5]], merge=m)
             for m in (False, True)],
            bounds="up to 3 batches or merged profiles of up to 2 (thorough 3) cells with "
            "overlapping, touching or separate indices"),
    Harness(positions,
            quick=[dict(nulls=k) for k in ([2], [1, 1], [2, 1], [0, 2], [1, 0, 1], [1, 1, 1])],
            thorough=[dict(nulls=k) for k in ([2, 2], [2, 1, 1], [1, 1, 1, 1], [2, 2, 1])],
            bounds="up to 3 (thorough 4) batches of 1..1000 rows at any index offset 0..1000, up "
            "to 2 nulls each at any position"),
]
