"""P29: work spread over processes gives the result of a single process."""
import contextlib
import copy
import multiprocessing

import pandas as pd

from dataprofiler.profilers import profiler_utils as U
from dataprofiler.profilers.column_profile_compilers import (
    ColumnPrimitiveTypeProfileCompiler,
    ColumnStatsProfileCompiler,
)
from dataprofiler.profilers.profile_builder import StructuredProfiler

from ..run import Harness
from . import sutil
from .p12 import Rng, draws
from .p17 import Labeler, same

ASSUMPTIONS = [
    "the pool is a model: a task works on a copy of its function, object and arguments taken when "
    "it is handed over or when its result is asked for; it may be refused when handed over, and it "
    "may fail at any moment, in any combination of tasks",
    "random draws are inputs, the same with and without the pool",
    "timings and the random samples shown in the report are not compared",
]


class Refused(Exception):
    pass


class Task:
    """0 copied and run when waited for; 1 fails; 2 refused; 3 run at once; 4 copied at once"""

    def __init__(self, pool, name, f, args):
        self.call, self.how = (f, args), pool.ctx.choose(name, pool.ways)
        if self.how == 2:
            raise Refused("no task")
        if self.how > 2:
            self.call = copy.deepcopy(self.call)
        if self.how == 3:
            self.call = self.call[0](*self.call[1])

    def get(self, timeout=None):
        if self.how == 1:
            raise Refused("worker died")
        if self.how == 3:
            return self.call
        f, args = copy.deepcopy(self.call)
        return f(*args)


class Pool:
    """tasks have one of the first `ways` fates"""

    def __init__(self, ctx, tag, ways=5):
        self.ctx, self.tag, self.n, self.ways, self.open = ctx, tag, 0, ways, True
        self.failed = 0

    def apply_async(self, f, args=(), kwds=None):
        if not self.open:
            raise ValueError("Pool not running")
        self.n += 1
        return Task(self, "%s%d" % (self.tag, self.n), f, args)

    def starmap(self, f, items):
        items = list(items)
        out, rest = [None] * len(items), list(range(len(items)))
        while rest:
            self.n += 1
            i = rest.pop(self.ctx.choose("%s%d" % (self.tag, self.n), len(rest)))
            out[i] = copy.deepcopy(f(*copy.deepcopy(items[i])))
        return out

    def map(self, f, items):
        return self.starmap(lambda x: f(x), [(x,) for x in items])

    def close(self):
        self.open = False

    def terminate(self):
        self.open = False

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False


@contextlib.contextmanager
def pools(ctx, ways, tag="p", free=(0, 1)):
    """every pool of the code under test is a model; the pools in `free` may fail"""
    made = []

    def generate(*a, **k):
        n = len(made)
        made.append(Pool(ctx, "%s%d_" % (tag, n), ways if n in free else 1))
        return made[-1], 4

    old = U.generate_pool, U.auto_multiprocess_toggle, multiprocessing.Pool
    U.generate_pool, U.auto_multiprocess_toggle = generate, lambda *a, **k: True
    multiprocessing.Pool = lambda *a, **k: generate()[0]
    try:
        yield made
    finally:
        U.generate_pool, U.auto_multiprocess_toggle, multiprocessing.Pool = old


def column(ctx, which, on, sizes, ways, text=False):
    """compilers of one column"""
    po = sutil.options(on).structured_options
    cls = ColumnStatsProfileCompiler if which == "stats" else ColumnPrimitiveTypeProfileCompiler
    a = b = None
    for i, n in enumerate(sizes):
        if text:
            xs = [ctx.pick("x%d_%d" % (i, j), ["1", "u"]) for j in range(n)]
            s = pd.Series(xs, dtype=object, name="c")
        else:
            xs = ctx.reals("x%d_" % i, n, 1, 1000)
            s = ctx.series(xs if ctx.symbolic else [repr(float(x)) for x in xs], name="c",
                           text=ctx.symbolic)
        pool = Pool(ctx, "p%d_" % i, ways)
        if a is None:
            a, b = cls(s, po), cls(s, po, pool)
        else:
            a.update_profile(s)
            b.update_profile(s, pool)
        ctx.check("the same profiles", list(a._profiles) == list(b._profiles))
        for k in a._profiles:
            same(ctx, k, a._profiles[k].profile, b._profiles[k].profile)
            ctx.check_eq("sample size", a._profiles[k].sample_size, b._profiles[k].sample_size)


def drawn(ctx, sample):
    """the same random draws for both profiles"""
    return draws(Rng(ctx)) if sample else contextlib.nullcontext()


def table(ctx, sizes, cols, ways, cell=None, on=("float",), min_true=0, perm=False, free=(0,),
          apart=False, sample=None, **opts):
    """whole data frames; free: the pool whose tasks may fail (0 cleaning, 1 statistics); apart:
    other values in every column"""
    def make():
        return sutil.options(on, rows=bool(cell), **opts)

    def rows(tag, n):
        if cell:
            return [[ctx.pick("%s%d%d" % (tag, i, j), cell) * (1 + j * apart)
                     for j in range(len(cols))] for i in range(n)]
        return [["nan" if ctx.choose("%sn%d%d" % (tag, i, j), 2)
                 else ctx.real("%s%d%d" % (tag, i, j), 1, 50) for j in range(len(cols))]
                for i in range(n)]

    a, b = (StructuredProfiler(None, options=make(), min_true_samples=min_true,
                               samples_per_update=sample) for _ in range(2))
    b.options.multiprocess.is_enabled = True
    start, total = 0, 0
    for i, n in enumerate(sizes):
        t = rows("xyz"[i], n)
        names = list(cols)
        if i and perm:
            t, names = [r[::-1] for r in t], names[::-1]
        with drawn(ctx, sample):
            a.update_profile(sutil.frame(ctx, t, names, start, symbolic=not cell))
        with pools(ctx, ways, "p%d_" % i, free) as made, drawn(ctx, sample):
            b.update_profile(sutil.frame(ctx, t, names, start, symbolic=not cell))
            total += sum(p.n for p in made)
            ctx.check("pools are closed", not any(p.open for p in made))
        start += n
    ctx.check("tasks were handed over", total > 0)
    fmt = dict(output_format="serializable")
    same(ctx, "report", a.report(fmt), b.report(fmt))


def merged(ctx, sizes, labeler=False):
    """a list of profiles merged by a pool"""
    def make(i, n):
        rows = [[ctx.pick("t%d_%d" % (i, r), ["1", "x", "", "2"])] for r in range(n)]
        po = sutil.options(("int", "category"))
        p = StructuredProfiler(None, options=po, min_true_samples=0)
        p.update_profile(sutil.frame(ctx, rows, ["a"], 0))
        return p

    ps = [make(i, n) for i, n in enumerate(sizes)]
    want = ps[0]
    for p in ps[1:]:
        want = want + p
    before = [p.report() for p in ps]
    given = list(ps)
    with pools(ctx, 1):
        got = U.merge_profile_list(given, pool_count=2)
    same(ctx, "report", want.report(), got.report())
    for p, r in zip(ps, before):
        same(ctx, "merged profiles are unchanged", r, p.report())


def labelers(ctx, k):
    """labelers of the merged and of the given profiles"""
    lab = Labeler(ctx, ["A", "B"], False)
    lab.rows["v"] = [0.9, 0.1]

    def opts():
        po = sutil.options(("category",))
        po.structured_options.data_labeler.is_enabled = True
        po.structured_options.data_labeler.data_labeler_object = lab
        return po

    shared = opts() if ctx.choose("shared options", 2) else None

    def make(i):
        po = shared or opts()
        p = StructuredProfiler(None, options=po, min_true_samples=0)
        p.update_profile(sutil.frame(ctx, [["v"]] * (1 + ctx.choose("n%d" % i, 2)), ["a"], 0))
        return p

    ps = [make(i) for i in range(k)]
    with pools(ctx, 5):
        got = U.merge_profile_list(list(ps), pool_count=2)

    def labeler(p):
        return p._profile[0].profiles["data_label_profile"]._profiles["data_labeler"].data_labeler
    ctx.check("the merged profile has the labeler", labeler(got) is lab)
    for p in ps:
        ctx.check("merged profiles keep their labeler", labeler(p) is lab)
        ctx.check("merged profiles keep their options",
                  p.options.data_labeler.data_labeler_object is lab)
    ctx.check_eq("rows", got.total_samples, sum(p.total_samples for p in ps))


HARNESSES = [
    Harness(column, quick=[dict(which="types", on=("float", "int"), sizes=[2], ways=5),
                           dict(which="types", on=("float",), sizes=[1, 1], ways=5),
                           dict(which="types", on=("float", "text"), sizes=[1, 1],
                                ways=4, text=True),
                           dict(which="stats", on=("order", "category"), sizes=[2, 1], ways=4,
                                text=True)],
            thorough=[dict(which="types", on=("float", "int"), sizes=[1, 1], ways=4),
                      dict(which="types", on=("float", "text", "datetime"), sizes=[1, 1],
                           ways=4, text=True),
                      dict(which="stats", on=("order", "category"), sizes=[1, 1, 1], ways=4,
                           text=True)],
            bounds="up to 2 (thorough 3) kinds of statistics per column, 2 (3) batches, every fate "
                   "of every task"),
    Harness(table, quick=[dict(sizes=[2], cols="ab", ways=4, cell=["1", "2"], corr=True),
                          dict(sizes=[2], cols="ab", ways=3, cell=["1", ""], corr=True),
                          dict(sizes=[1, 1], cols="ab", ways=2, nullrep=True, cell=["1", ""]),
                          dict(sizes=[1], cols="abc", ways=2, nullrep=True, cell=["2", ""],
                               apart=True),
                          dict(sizes=[1], cols="abc", ways=4, on=("float",)),
                          dict(sizes=[1], cols="ab", ways=3, on=("float", "category"), free=(1,),
                               cell=["1", "x"]),
                          dict(sizes=[2], cols="ab", ways=2, cell=["1", ""], min_true=1),
                          dict(sizes=[1, 1], cols="ab", ways=2, on=("category",), chi2=True,
                               cell=["u", "v"], perm=True),
                          dict(sizes=[1, 1], cols="ab", ways=2, on=("float",), perm=True,
                               cell=["1", ""]),
                          dict(sizes=[3], cols="ab", ways=3, on=("float",), sample=1, apart=True,
                               cell=["1"], free=(0,)),
                          dict(sizes=[3], cols="a", ways=3, on=("float",), sample=1,
                               cell=["1", "2", ""])],
            thorough=[dict(sizes=[1, 1], cols="ab", ways=4, on=("float", "text")),
                      dict(sizes=[2], cols="ab", ways=4, free=(0, 1), cell=["1", "2", ""],
                           corr=True, on=("float", "int")),
                      dict(sizes=[1, 1], cols="ab", ways=4, nullrep=True, cell=["1", "2", ""]),
                      dict(sizes=[2], cols="abc", ways=4, on=("float",), corr=True,
                           cell=["1", "2"])],
            bounds="2-3 columns, 2 batches, every fate of every task of one pool (thorough: of "
                   "both)"),
    Harness(merged, quick=[dict(sizes=s) for s in ([1], [1, 1], [1, 1, 1], [2, 1])],
            thorough=[dict(sizes=[1] * 4), dict(sizes=[1] * 5), dict(sizes=[2, 1, 1])],
            bounds="up to 3 (thorough 5) profiles, merged in any order of the tasks"),
    Harness(labelers, quick=[dict(k=k) for k in (1, 2, 3)], bounds="up to 3 profiles"),
]
