"""Helpers for structured (data frame) profiles."""
import pandas as pd

from dataprofiler.profilers.profile_builder import StructuredProfiler
from dataprofiler.profilers.profiler_options import ProfilerOptions


def options(on=(), corr=False, nullrep=False, chi2=False, rows=True, hashing="full"):
    po = ProfilerOptions()
    so = po.structured_options
    so.data_labeler.is_enabled = False
    so.multiprocess.is_enabled = False
    for n in ("int", "float", "datetime", "text", "order", "category"):
        getattr(so, n).is_enabled = n in on
    off = ["histogram_and_quantiles", "median", "mode", "median_abs_deviation", "skewness",
           "kurtosis"]
    for k in ("int", "float", "text"):
        o = getattr(so, k)
        if "hist" not in on:
            for n in off:
                getattr(o, n).is_enabled = False
    so.float.precision.is_enabled = False
    so.text.vocab.is_enabled = False
    so.correlation.is_enabled = corr
    so.null_replication_metrics.is_enabled = nullrep
    so.chi2_homogeneity.is_enabled = chi2
    so.row_statistics.is_enabled = rows
    so.row_statistics.unique_count.hashing_method = hashing
    return po


def frame(ctx, rows, cols, start=0, symbolic=False):
    """object data frame; cells are texts or (symbolic) numbers"""
    d = pd.DataFrame({}, index=range(start, start + len(rows)))
    for j, c in enumerate(cols):
        d.insert(j, c, ctx.series([r[j] for r in rows], text=symbolic and ctx.symbolic,
                                  index=range(start, start + len(rows))), allow_duplicates=True)
    return d


def profiler(po, data=None, min_true=0):
    return StructuredProfiler(data, options=po, min_true_samples=min_true)
