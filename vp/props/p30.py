"""P30: switching a statistic off changes nothing but that statistic."""
import numpy as np
import pandas as pd

from dataprofiler.profilers import profiler_options as PO
from dataprofiler.profilers.profile_builder import StructuredProfiler
from dataprofiler.profilers.unstructured_text_profile import TextProfiler

from ..run import Harness
from . import sutil
from .p17 import same
from .util import FloatColumn, IntColumn, TextColumn, cells, values

ASSUMPTIONS = [
    "switches are combined as validation allows (variance needs the sum, and so on)",
    "histogram-based statistics: cells from a short list of numerals; the other numeric "
    "statistics: any numbers",
    "a statistic that is switched off reports what a column without values reports",
]
CLS = {"float": (FloatColumn, PO.FloatOptions), "int": (IntColumn, PO.IntOptions),
       "text": (TextColumn, PO.TextOptions)}
CHAIN = ["sum", "variance", "skewness", "kurtosis"]
HIST = ["histogram_and_quantiles", "mode", "median", "median_abs_deviation"]
# reported key -> switches it needs
NEEDS = dict(min=["min"], max=["max"], sum=["sum"], mean=["sum"], variance=["variance"],
             stddev=["variance"], skewness=["skewness"], kurtosis=["kurtosis"],
             num_zeros=["num_zeros"], num_negatives=["num_negatives"],
             histogram=HIST[:1], quantiles=HIST[:1], mode=HIST[:2],
             median=[HIST[0], "median"], median_abs_deviation=[HIST[0], "median_abs_deviation"],
             precision=["precision"], vocab=["vocab"])
EXTRA = {"float": ["num_zeros", "num_negatives"], "int": ["num_zeros", "num_negatives"],
         "text": []}


def switches(ctx, tag, kind, hist):
    """the statistics that are on"""
    if hist:
        on = {"min", "max", "sum", "variance"}
        if ctx.choose(tag + "histogram", 2):
            on.add(HIST[0])
            on |= {n for n in HIST[1:] if ctx.choose(tag + n, 2)}
        extra = {"float": "precision", "text": "vocab", "int": "min"}[kind]
        if ctx.choose(tag + extra, 2):
            on.add(extra)
        else:
            on.discard(extra)
        return on
    on = set(CHAIN[:ctx.choose(tag + "level", len(CHAIN) + 1)])
    for n in ["min", "max"] + EXTRA[kind]:
        if ctx.choose(tag + n, 2):
            on.add(n)
    return on


def everything(kind, hist):
    on = {"min", "max"} | set(CHAIN[:2] if hist else CHAIN) | set(EXTRA[kind])
    if hist:
        on |= set(HIST) | {"float": {"precision"}, "text": {"vocab"}, "int": set()}[kind]
    return on


def make(kind, on):
    cls, opt = CLS[kind]
    o = opt()
    for n in set(sum(NEEDS.values(), [])):
        if hasattr(o, n) and isinstance(getattr(o, n), PO.BooleanOption):
            getattr(o, n).is_enabled = n in on
    o.histogram_and_quantiles.num_quantiles = 4
    o.validate()
    return cls("c", o)


def listed(c):
    return c.profile


def judge(ctx, kind, got, on, full, tag):
    """got: column with only `on`, full: the same data with everything"""
    r, f, e = listed(got), listed(full), listed(make(kind, on))
    ctx.check(tag + "reported names", set(r) == set(f))
    for k in r:
        if k == "times":
            continue
        if all(n in on for n in NEEDS[k]):
            same(ctx, tag + k, f[k], r[k])
        else:
            same(ctx, tag + "off: " + k, e[k], r[k])
    ctx.check_eq(tag + "samples", got.sample_size, full.sample_size)
    ctx.check_eq(tag + "matches", got.match_count, full.match_count)
    short = got.report(remove_disabled_flag=True)
    want = {k for k in r if k != "times" and all(n in on for n in NEEDS[k])}
    ctx.check(tag + "left out of the report", set(short) - {"times"} == want)
    for k in want:
        same(ctx, tag + "short report: " + k, r[k], short[k])


NUMERALS = {"float": ["1.5", "2", "-40", "x"], "int": ["1", "20", "-4", "x"],
            "text": ["a", "bbb", "ab c", "1"]}


def batch(ctx, kind, tag, n, hist):
    if hist:
        xs = [ctx.pick("%s%d" % (tag, i), NUMERALS[kind][:3]) for i in range(n)]
        return lambda: pd.Series(xs, dtype=object)
    xs = values(ctx, kind, tag, n, 1000)
    return lambda: cells(ctx, kind, xs)


def updates(ctx, kind, sizes, hist=False):
    on = switches(ctx, "", kind, hist)
    a, f = make(kind, on), make(kind, everything(kind, hist))
    for b, n in enumerate(sizes):
        s = batch(ctx, kind, "xyz"[b], n, hist)
        a.update(s())
        f.update(s())
    judge(ctx, kind, a, on, f, "")


def merges(ctx, kind, sizes, hist=False, after=0):
    if hist:
        # one switch differs
        ons = [switches(ctx, "a ", kind, hist)] * 2
        ons[1] = set(ons[0])
        k = ctx.choose("other switch", len(HIST) + 1)
        if k:
            n = HIST[k - 1]
            ons[1] ^= {n}
            if HIST[0] not in ons[1]:
                ons[1] -= set(HIST)
            elif HIST[0] not in ons[0]:
                ons[1] |= set(HIST)
    else:
        # any levels of the moments; at most one of the other switches differs
        rest = ["min", "max"] + EXTRA[kind]
        other = set(rest) if ctx.choose("others", 2) else set()
        ons = [set(CHAIN[:ctx.choose(t + "level", len(CHAIN) + 1)]) | other for t in "ab"]
        k = ctx.choose("other switch", len(rest) + 1)
        if k:
            ons[ctx.choose("whose", 2)] ^= {rest[k - 1]}
    both = ons[0] & ons[1]
    full = everything(kind, hist)
    parts = [batch(ctx, kind, t, n, hist) for t, n in zip("xy", sizes)]
    cs, fs = [make(kind, o) for o in ons], [make(kind, full) for _ in ons]
    for c, f, s in zip(cs, fs, parts):
        c.update(s())
        f.update(s())
    m, f = cs[0] + cs[1], fs[0] + fs[1]
    judge(ctx, kind, m, both, f, "merged: ")
    if after:
        s = batch(ctx, kind, "z", after, hist)
        m.update(s())
        f.update(s())
        judge(ctx, kind, m, both, f, "updated after merge: ")


def quantile_count(ctx, kind):
    """the number of quantiles asked for, also after a merge"""
    n = 2 + ctx.choose("quantiles", 8)

    def col(tag, size):
        o = CLS[kind][1]()
        o.histogram_and_quantiles.num_quantiles = n
        c = CLS[kind][0]("c", o)
        c.update(batch(ctx, kind, tag, size, True)())
        return c
    a, b = col("x", 2), col("y", 1)
    ctx.check("quantiles of a column", len(a.profile["quantiles"]) == n - 1)
    m = a + b
    ctx.check("quantiles after a merge", len(m.profile["quantiles"]) == n - 1)
    m.update(pd.Series(["7"], dtype=object))
    ctx.check("quantiles after a merge and an update", len(m.profile["quantiles"]) == n - 1)


def words(ctx, sizes, merge=False):
    """switches of unstructured text"""
    on = {n for n in ("vocab", "words") if ctx.choose(n, 2)}

    def make(on):
        o = PO.TextProfilerOptions()
        o.vocab.is_enabled, o.words.is_enabled = "vocab" in on, "words" in on
        return TextProfiler("t", o)
    full = {"vocab", "words"}
    parts = [pd.Series([ctx.pick("%s%d" % ("xyz"[b], i), ["ab cd", "cd", "x, ab"])
                        for i in range(n)], dtype=object) for b, n in enumerate(sizes)]
    if merge:
        cs = [(make(on), make(full)) for _ in sizes]
        for (a, f), s in zip(cs, parts):
            a.update(s)
            f.update(s)
        a, f = cs[0][0] + cs[1][0], cs[0][1] + cs[1][1]
    else:
        a, f = make(on), make(full)
        for s in parts:
            a.update(s)
            f.update(s)
    r, e = a.profile, make(on).profile
    short = a.report(remove_disabled_flag=True)
    for key, need in (("vocab", "vocab"), ("vocab_count", "vocab"), ("words", "words"),
                      ("word_count", "words")):
        want = f.profile[key] if need in on else e[key]
        if isinstance(want, list):
            ctx.check(key, sorted(want) == sorted(r[key]))
        else:
            ctx.check(key, want == r[key])
        ctx.check("short report: " + key, (key in short) == (need in on))
        if key in short:
            ctx.check("short report, value: " + key, short[key] == r[key])


PARTS = ["correlation", "null_replication_metrics", "chi2_homogeneity", "row_statistics",
         "unique_count", "null_count"]
COLS = ["int", "float", "datetime", "text", "order", "category"]


def struct(on):
    po = sutil.options([n for n in COLS if n in on], corr="correlation" in on,
                       nullrep="null_replication_metrics" in on, chi2="chi2_homogeneity" in on,
                       rows="row_statistics" in on)
    rs = po.structured_options.row_statistics
    rs.unique_count.is_enabled = "unique_count" in on
    rs.null_count.is_enabled = "null_count" in on
    return po


GLOBAL = dict(row_has_null_ratio=["row_statistics", "null_count"],
              row_is_null_ratio=["row_statistics", "null_count"],
              unique_row_ratio=["row_statistics", "unique_count"],
              duplicate_row_count=["row_statistics", "unique_count"],
              correlation_matrix=["correlation"], chi2_matrix=["chi2_homogeneity"])


def table(ctx, free, fixed, cell, sizes, cols="ab"):
    """switches of a whole profile: those in `free` are on or off, those in `fixed` on"""
    on = set(fixed) | {n for n in free if ctx.choose(n, 2)}
    full = set(fixed) | set(free)
    ctx.assume("category" in on or "chi2_homogeneity" not in on)
    ctx.assume({"int", "float"} & on or "correlation" not in on)
    a, f = (StructuredProfiler(None, options=struct(o), min_true_samples=0) for o in (on, full))
    start = 0
    for b, n in enumerate(sizes):
        t = [[ctx.pick("%s%d%d" % ("xyz"[b], i, j), cell) for j in range(len(cols))]
             for i in range(n)]
        for p in (a, f):
            p.update_profile(sutil.frame(ctx, t, cols, start))
        start += n
    ra, rf = a.report(), f.report()
    for k, v in rf["global_stats"].items():
        if k == "times":
            continue
        if all(n in on for n in GLOBAL.get(k, [])):
            same(ctx, k, v, ra["global_stats"][k])
        else:
            ctx.check("off: " + k, ra["global_stats"][k] is None)
    for ca, cf, pa, pf in zip(ra["data_stats"], rf["data_stats"], a._profile, f._profile):
        ctx.check("columns", ca["column_name"] == cf["column_name"])
        for k in ("sample_size", "null_count", "null_types", "null_types_index"):
            same(ctx, k, cf["statistics"][k], ca["statistics"][k])
        ctx.check("null replication metrics only when on",
                  ("null_replication_metrics" in ca["statistics"]) <=
                  ("null_replication_metrics" in on))
        if "null_replication_metrics" in on:
            same(ctx, "null replication metrics",
                 cf["statistics"].get("null_replication_metrics"),
                 ca["statistics"].get("null_replication_metrics"))
        for name in ("data_type_profile", "data_stats_profile"):
            da, df = pa.profiles[name]._profiles, pf.profiles[name]._profiles
            ctx.check("kinds of statistics", set(da) == {n for n in df if n in on})
            for n in da:
                same(ctx, n, df[n].profile, da[n].profile)
        for n in ("int", "float", "datetime", "text"):
            sf, sa = (c["statistics"].get("data_type_representation") for c in (cf, ca))
            # the shares are reported with the type, when there is one
            if n in on and sf and n in sf and ca["data_type"] is not None:
                ctx.check("share reported: " + n, bool(sa) and n in sa)
                same(ctx, "share of " + n, sf[n], sa[n])


np.seterr(all="ignore")
HARNESSES = [
    Harness(updates, quick=[dict(kind="float", sizes=[2, 1]), dict(kind="int", sizes=[1, 1]),
                            dict(kind="text", sizes=[2])] + [
        dict(kind=k, sizes=[2], hist=True) for k in ("float", "int", "text")],
        thorough=[dict(kind=k, sizes=[2, 2]) for k in CLS] + [
            dict(kind=k, sizes=[1, 1], hist=True) for k in CLS],
        bounds="every allowed combination of switches; up to 3 (thorough 4) values"),
    Harness(merges, quick=[dict(kind="float", sizes=[1, 1]),
                           dict(kind="float", sizes=[1, 1], hist=True)],
            thorough=[dict(kind="text", sizes=[1, 1]),
                      dict(kind="int", sizes=[2, 1], after=1),
                      dict(kind="int", sizes=[1, 1], hist=True, after=1),
                      dict(kind="text", sizes=[1, 1], hist=True)],
            bounds="every allowed combination of switches of both columns (histograms: one "
                   "switch differs); one (thorough two) values each; other columns: any two levels of the moments, at most "
                   "one of the other switches differs"),
    Harness(quantile_count, quick=[dict(kind="float")], thorough=[dict(kind="int")],
            bounds="2 to 9 quantiles, 4 values"),
    Harness(words, quick=[dict(sizes=[2]), dict(sizes=[1, 1]), dict(sizes=[1, 1], merge=True)],
            bounds="two switches, up to 2 texts"),
    Harness(table, quick=[
        dict(free=PARTS[3:] + ["null_replication_metrics"], fixed=["float", "category"],
             cell=["1", ""], sizes=[2]),
        dict(free=COLS, fixed=["row_statistics", "null_count"], cell=["1", "x", "1/2/20"],
             sizes=[1], cols="a"),
        dict(free=["correlation", "chi2_homogeneity", "int", "float", "category"], fixed=[],
             cell=["1", "2"], sizes=[2])],
        thorough=[dict(free=PARTS + ["float", "category"], fixed=["int"], cell=["1", ""],
                       sizes=[1, 1])],
        bounds="up to 6 switches, 1-2 rows of 1-2 columns"),
]
