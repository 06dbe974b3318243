"""P12: sampling picks distinct valid rows whatever the random draws."""
import io
import math
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from dataprofiler import rng_utils
from dataprofiler.data_readers import data_utils as D
from dataprofiler.profilers import profiler_utils as U
from dataprofiler.profilers.profile_builder import (
    StructuredColProfiler,
    StructuredProfiler,
    UnstructuredProfiler,
)

from dataprofiler.profilers.profiler_options import ProfilerOptions

from ..run import Harness
from . import sutil
from .util import put

ASSUMPTIONS = [
    "the random generator is an arbitrary sequence of draws within the requested limits; "
    "uniform draws lie strictly between 0 and 1",
]


class Rng:
    """generator whose draws are inputs of the harness"""

    def __init__(self, ctx, k=None, rows=0):
        self.ctx, self.n, self.k, self.rows = ctx, 0, k, rows
        self.w, self.turn = 1.0, 0

    def _int(self, lo, hi):
        self.n += 1
        return int(lo) + self.ctx.choose("d%d" % self.n, int(hi) - int(lo))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        add = 1 if endpoint else 0
        if size is not None:
            low = np.zeros(size, dtype=int) + low
        if np.ndim(low) == 0 and np.ndim(high) == 0:
            return self._int(low, high + add)
        low, high = np.broadcast_arrays(np.asarray(low), np.asarray(high))
        return np.array([self._int(a, b + add) for a, b in zip(low, high)])

    def random(self, size=None):
        """pairs of draws: weight, then the draw that leads to a chosen number of skipped rows"""
        self.turn += 1
        if self.turn % 2:
            u = 0.3
            self.w *= u ** (1 / self.k)
            return u
        self.n += 1
        skip = self.ctx.choose("s%d" % self.n, self.rows + 1)
        return math.exp((skip + 0.5) * math.log1p(-self.w))

    def choice(self, a, size=None, replace=True):
        n = int(np.prod(size)) if size is not None else 1
        rest = list(a)
        out = [rest.pop(self._int(0, len(rest))) for _ in range(n)]
        return np.array(out, dtype=object)

    def shuffle(self, x):
        for i in range(len(x) - 1):
            j = self._int(i, len(x))
            x[i], x[j] = x[j], x[i]

    def permutation(self, n):
        x = list(range(n)) if isinstance(n, (int, np.integer)) else list(n)
        self.shuffle(x)
        return np.array(x)


class Lopsided(Rng):
    """few kinds of draws, for longer sequences: lowest, highest or middle, changing once"""

    def __init__(self, ctx, n):
        super().__init__(ctx)
        self.kinds = [ctx.choose("kind0", 3), ctx.choose("kind1", 3)]
        self.turning = ctx.choose("turning", n)

    def _int(self, lo, hi):
        kind = self.kinds[self.n >= self.turning]
        self.n += 1
        return int((lo, hi - 1, (lo + hi) // 2)[kind])


def text_profiler():
    o = ProfilerOptions()
    o.unstructured_options.data_labeler.is_enabled = False
    return UnstructuredProfiler(None, options=o)


class draws:
    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        self.old = rng_utils.get_random_number_generator
        rng_utils.get_random_number_generator = lambda: self.rng

    def __exit__(self, *a):
        rng_utils.get_random_number_generator = self.old


def shuffle(ctx, n, chunk, many=False):
    with draws(Lopsided(ctx, n) if many else Rng(ctx)):
        got = [list(c) for c in U.shuffle_in_chunks(n, chunk)]
    flat = [int(i) for c in got for i in c]
    ctx.check("every index exactly once", sorted(flat) == list(range(n)))
    ctx.check("chunk sizes", [len(c) for c in got] == [
        min(chunk, n - i) for i in range(0, n, chunk)])
    part = [list(c) for c in U.partition(flat, chunk)]
    ctx.check("partition keeps the order", [i for c in part for i in c] == flat)
    ctx.check("partition sizes", [len(c) for c in part] == [len(c) for c in got])


def reservoir(ctx, rows, k, header=None):
    names = ["r%d" % i for i in range(rows)]
    lines = [s + "\n" for s in names]
    if rows and ctx.choose("last line without newline", 2):
        lines[-1] = lines[-1][:-1]
    with draws(Rng(ctx, k, rows)):
        if header is None:
            got = [s.rstrip("\n") for s in D.reservoir(io.StringIO("".join(lines)), k)]
        else:
            args = {"header": header}
            out = D.rsample(io.StringIO("".join(lines)), k, args)
            got = out.read().split("\n")
            ctx.check("lines end", got[-1] == "")
            got = got[:-1]
            ctx.check("header kept first", got[0] == names[header])
            ctx.check("header becomes the first line", args["header"] == 0)
            got, names = got[1:], names[header + 1:]
    ctx.check("number of rows", len(got) == min(k, len(names)))
    ctx.check("distinct rows of the file", len(set(got)) == len(got) and set(got) <= set(names))


def csv_sample(ctx, rows, k):
    """sampled CSV data frames hold k different records of the file"""
    text = "a,b\n" + "".join("%d,%d\n" % (i, 10 * i) for i in range(rows))
    with draws(Rng(ctx, k, rows)):
        df = D.read_csv_df(io.StringIO(text), ",", 0, sample_nrows=k, read_in_string=True)
    got = list(zip(df["a"], df["b"]))
    ctx.check("number of records", len(got) == min(k, rows))
    ctx.check("distinct records of the file", len(set(got)) == len(got) and set(got) <= {
        (str(i), str(10 * i)) for i in range(rows)})


def parquet_sample(ctx, rows, k):
    d = tempfile.mkdtemp(prefix="vp12")
    old = random.sample
    try:
        f = os.path.join(d, "x.parquet")
        pd.DataFrame({"a": ["v%d" % i for i in range(rows)],
                      "b": ["w%d" % i for i in range(rows)]}).to_parquet(f)
        cnt = [0]

        def sample(pop, n, **kw):
            rest, out = list(pop), []
            for _ in range(n):
                cnt[0] += 1
                out.append(rest.pop(ctx.choose("d%d" % cnt[0], len(rest))))
            return out

        random.sample = sample
        df, _ = D.read_parquet_df(f, k)
        got = list(zip(df["a"], df["b"]))
    finally:
        random.sample = old
        shutil.rmtree(d)
    ctx.check("number of rows", len(got) == min(k, rows))
    ctx.check("distinct rows of the file", len(set(got)) == len(got) and set(got) <= {
        ("v%d" % i, "w%d" % i) for i in range(rows)})


def size(ctx, kind):
    """any length, minimum and sampling ratio"""
    n = ctx.int("n", 1, 10**6)
    lo = ctx.int("min", 1, 10**6)
    ratio = ctx.real("ratio", 0, 1)
    ctx.assume(ratio > 0)
    if kind == "column":
        p = StructuredColProfiler()
    elif kind == "structured":
        p = StructuredProfiler(None, options=sutil.options())
    else:
        p = text_profiler()
    put(p, _min_sample_size=lo, _sampling_ratio=ratio)
    got = p._get_sample_size(ctx.text_of_len(n))
    ctx.observe("size", got)
    ctx.check("at most the data", got <= n)
    ctx.check("all data when it is no larger than the minimum",
              ctx.implies(n <= lo, got == n))
    ctx.check("at least the minimum when there is enough data",
              ctx.implies(n >= lo, got >= lo))
    ctx.check("at least the sampling ratio", got > ratio * n - 1)
    ctx.check("not more than asked for", ctx.any([got <= ratio * n, got <= lo]))


def check_used(ctx, cells, null, clean, base, count_key, size, min_true):
    n = len(cells)
    used = int(base["sample_size"])
    ctx.check("at most the data", used <= n)
    ctx.check("at least the sample size", used >= min(size, n))
    good = [i for i, c in enumerate(cells) if not null(c)]
    ctx.check("sampled rows are rows of the data", set(clean.index) <= set(good))
    ctx.check("sampled rows are distinct", len(set(clean.index)) == len(clean.index))
    ctx.check("cells belong to their rows", all(cells[i] == v for i, v in clean.items()))
    ctx.check_eq("nulls", base[count_key], used - len(clean))
    ctx.check("required minimum", len(clean) >= min_true or used == n)
    if used == n:
        ctx.check("every true row used", sorted(clean.index) == good)
    ctx.check("sample shows true cells", all(v in list(clean.values) for v in base["sample"]))
    ctx.check("sample length", len(base["sample"]) == min(5, len(clean)))
    if size >= n:
        ctx.check("all data used", used == n)


def clean_column(ctx, n, min_true):
    cells = [ctx.pick("c%d" % i, ["v%d" % i, ""]) for i in range(n)]
    size = ctx.choose("size", n + 1) + 1
    s = pd.Series(cells, dtype=object, name="a")
    with draws(Rng(ctx)):
        clean, base = StructuredColProfiler.clean_data_and_get_base_stats(
            s, size, StructuredColProfiler()._null_values, min_true)
    check_used(ctx, cells, lambda c: c == "", clean, base, "null_count", size, min_true)
    ctx.check("null rows are rows of the data", all(
        cells[i] == t for t, ix in base["null_types"].items() for i in ix))


def clean_text(ctx, n, min_true):
    cells = [ctx.pick("c%d" % i, ["v%d" % i, " "]) for i in range(n)]
    size = ctx.choose("size", n + 1) + 1
    p = text_profiler()
    with draws(Rng(ctx)):
        clean, base = p._clean_data_and_get_base_stats(
            pd.Series(cells, dtype=object), size, min_true)
    check_used(ctx, cells, lambda c: c == " ", clean, base, "empty_line_count", size, min_true)


def frame(ctx, rows, size, min_true=0):
    """columns of a sampled data frame are sampled from their own cells"""
    a = ["a%d" % i if ctx.choose("na%d" % i, 2) == 0 else "" for i in range(rows)]
    b = ["b%d" % i for i in range(rows)]
    with draws(Rng(ctx)):
        p = StructuredProfiler(pd.DataFrame({"a": a, "b": b}), options=sutil.options(("category",)),
                               samples_per_update=size, min_true_samples=min_true)
    for cells, c in zip((a, b), p._profile):
        seen = c.profiles["data_stats_profile"]._profiles["category"]._categories
        good = [x for x in cells if x]
        ctx.check("sampled cells are cells of the column, once each",
                  all(seen[k] == 1 and k in good for k in seen))
        ctx.check("at least the sample size", c.sample_size >= min(size, rows))
        ctx.check("at most the data", c.sample_size <= rows)
        ctx.check("required minimum", len(seen) >= min_true or c.sample_size == rows)
        ctx.check_eq("nulls", c.null_count, c.sample_size - len(seen))
        if c.sample_size == rows:
            ctx.check("all cells", sorted(seen) == sorted(good))
    ctx.check_eq("total rows", p.total_samples, rows)


HARNESSES = [
    Harness(shuffle, quick=[dict(n=n, chunk=c) for n, c in (
        (1, 1), (2, 1), (2, 3), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (4, 4), (4, 7), (5, 2),
        (5, 3))] + [dict(n=n, chunk=c, many=True) for n, c in ((9, 2), (8, 1), (12, 3), (25, 6))],
        thorough=[dict(n=5, chunk=c) for c in (1, 4, 5)] + [
            dict(n=6, chunk=c) for c in (1, 2, 3, 4, 6)],
        bounds="every draw sequence for up to 5 (thorough 6) indices and any chunk size; up to 25 "
        "indices in up to 9 chunks with lowest, middle or highest draws"),
    Harness(reservoir, quick=[dict(rows=r, k=k) for r, k in (
        (0, 1), (1, 2), (2, 1), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (2, 4))] + [
            dict(rows=4, k=2, header=h) for h in (0, 1)] + [dict(rows=2, k=3, header=0)],
        thorough=[dict(rows=5, k=k) for k in (1, 2, 3, 4)] + [dict(rows=6, k=2)],
        bounds="up to 4 (thorough 6) rows, every number of skipped rows and replaced position"),
    Harness(csv_sample, quick=[dict(rows=3, k=1), dict(rows=3, k=2), dict(rows=2, k=3)],
            thorough=[dict(rows=4, k=2), dict(rows=4, k=3)],
            bounds="up to 3 (thorough 4) records"),
    Harness(parquet_sample, quick=[dict(rows=3, k=k) for k in (1, 2, 3, 4)],
            thorough=[dict(rows=4, k=k) for k in (1, 2, 3)], bounds="up to 3 (thorough 4) rows"),
    Harness(size, quick=[dict(kind=k) for k in ("column", "structured", "unstructured")],
            bounds="any length and minimum up to 10^6, any ratio in (0, 1]"),
    Harness(clean_column, quick=[dict(n=n, min_true=m) for n in (1, 2, 3) for m in (0, 1, 2)],
            thorough=[dict(n=4, min_true=m) for m in (0, 2, 4)],
            bounds="up to 3 (thorough 4) cells, every placement of nulls, sample size and draws"),
    Harness(clean_text, quick=[dict(n=n, min_true=m) for n in (1, 2, 3) for m in (0, 1, 2)],
            thorough=[dict(n=4, min_true=m) for m in (0, 2, 4)],
            bounds="up to 3 (thorough 4) lines, every placement of blanks, sample size and draws"),
    Harness(frame, quick=[dict(rows=3, size=1), dict(rows=3, size=2, min_true=1),
                          dict(rows=3, size=5)],
            thorough=[dict(rows=4, size=2), dict(rows=4, size=2, min_true=2)],
            bounds="3 (thorough 4) rows, 2 columns"),
]
