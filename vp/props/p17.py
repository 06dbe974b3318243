"""P17: a saved and loaded profile is the profile that was saved."""
import enum
import json
import os
import pickle
import random
import re
import tempfile

import numpy as np
import pandas as pd

from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.profilers import (
    CategoricalColumn,
    DateTimeColumn,
    OrderColumn,
)
from dataprofiler.profilers import profiler_options as PO
from dataprofiler.profilers.data_labeler_column_profile import DataLabelerColumn
from dataprofiler.profilers.json_decoder import load_column_profile, load_option, load_profiler
from dataprofiler.profilers.json_encoder import ProfileEncoder
from dataprofiler.profilers.profile_builder import (
    BaseProfiler,
    StructuredProfiler,
    UnstructuredProfiler,
)

from ..run import Harness
from . import p21
from .sutil import frame, options, profiler
from .util import cells, column, values

ASSUMPTIONS = [
    "the JSON text itself is modelled in symbolic runs (keys become texts, tuples and sets lists, "
    "everything else by the encoder of the code); replays write and read real files",
    "timings and the random samples shown in the report are not compared",
    "profiles with a HyperLogLog or count-min sketch cannot be written as JSON (the code refuses); "
    "the labeler inside a label column is replaced by a stub that JSON names by its library entry",
    "pickled profiles: cells from short lists",
]
SKIP = ("times", "samples")


def key(k):
    if isinstance(k, str):
        return k
    if k is None or k is True or k is False:
        return {None: "null", True: "true", False: "false"}[k]
    if isinstance(k, int) and not isinstance(k, np.generic):
        return str(int(k))
    if isinstance(k, float):
        return repr(float(k))
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def jsonify(o, enc):
    """what json.loads(json.dumps(o)) gives, numbers of the solver passed on"""
    if o is None or isinstance(o, (bool, str)):
        return str(o) if isinstance(o, str) else o
    if isinstance(o, (int, float)):
        if isinstance(o, enum.Enum):
            return o.value
        if isinstance(o, np.floating):
            return float(o)
        return o
    if isinstance(o, (list, tuple)):
        return [jsonify(x, enc) for x in o]
    if isinstance(o, dict):
        return {key(k): jsonify(v, enc) for k, v in o.items()}
    if type(o).__name__ in ("SymNum", "SymBool"):
        return o
    return jsonify(enc.default(o), enc)


def trip(ctx, obj, load, config=None):
    if ctx.symbolic:
        data = jsonify(obj, ProfileEncoder())
    else:
        data = json.loads(json.dumps(obj, cls=ProfileEncoder))
    return load(data) if config is None else load(data, config)


def disk(ctx, p, method):
    """through a file, the way a user does it (json or pickle)"""
    if method == "json" and ctx.symbolic:
        return load_profiler(jsonify(p, ProfileEncoder()), {})
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "profile")
        p.save(f, method)
        way = ctx.choose("load by", 3)
        how = None if way == 1 else method
        q = (StructuredProfiler if way == 2 else BaseProfiler).load(f, how)
    ctx.check("class of the loaded profile", type(q) is type(p))
    return q


def is_num(v):
    return not isinstance(v, (bool, str, type(None), dict, list, set, tuple, np.ndarray, pd.Timestamp))


def same(ctx, name, a, b):
    """equal reports"""
    if isinstance(a, dict):
        ctx.check(name + ": keys", isinstance(b, dict) and set(a) - set(SKIP) == set(b) - set(SKIP))
        for k in a:
            if k not in SKIP:
                same(ctx, "%s.%s" % (name, k), a[k], b[k])
    elif isinstance(a, (list, tuple, np.ndarray)):
        ctx.check(name + ": length", isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, name, x, y)
    elif isinstance(a, (set, frozenset)):
        ctx.check(name, isinstance(b, (set, frozenset, list)) and set(b) == a)
    elif is_num(a):
        ctx.check(name + ": a number", is_num(b) or isinstance(b, bool))
        if ctx.isnan(a) or ctx.isnan(b):
            ctx.check(name + ": nan", ctx.isnan(a) and ctx.isnan(b))
        else:
            ctx.check_eq(name, a, b)
    else:
        ctx.check(name, a is b or a == b)


def report_of(c):
    return c.report() if hasattr(c, "report") else c.profile


def follow(ctx, p, q, more, what="saved"):
    """same report now, after the same update, and after the same merge"""
    same(ctx, "report", p.profile, q.profile)
    p.update(more())
    q.update(more())
    same(ctx, "report after an update", p.profile, q.profile)


def numeric(ctx, kind, n, m, on=(), merge=False, bias=True):
    def fresh(tag, k):
        c = column(kind, on, bias=bias)
        if k:
            c.update(cells(ctx, kind, values(ctx, kind, tag, k, 1000)))
        return c

    p = fresh("x", n)
    q = trip(ctx, p, load_column_profile)
    ctx.check("class of the loaded column", type(q) is type(p))
    y = values(ctx, kind, "y", m, 1000)
    if merge:
        same(ctx, "report", p.profile, q.profile)
        o = fresh("o", m)
        same(ctx, "merged report", (p + o).profile, (q + o).profile)
        same(ctx, "merged report, other way", (o + p).profile, (o + q).profile)
    else:
        follow(ctx, p, q, lambda: cells(ctx, kind, y))


WORDS = {
    "order": (lambda: OrderColumn("c"), ["0", "2", "10", "x"]),
    "category": (lambda: CategoricalColumn("c"), ["u", "1", "w"]),
    "datetime": (lambda: DateTimeColumn("c"), ["1/2/20", "2020-03-01 10:00:00", "x"]),
    "times": (lambda: DateTimeColumn("c"), ["2020-03-01T10:00:00.250000Z", "2020-03-01 10:00:00",
                                            "2020-03-01T10:00:00.500000Z", "2020-03-01 09:00:00"]),
    "text": (lambda: column("text", ("vocab", "histogram_and_quantiles")), ["u", "vw", "1.50"]),
    "float": (lambda: column("float", ("precision", "histogram_and_quantiles", "mode")),
              ["1", "0.250", "x", "-7e3"]),
    "int": (lambda: column("int", ("histogram_and_quantiles", "median", "median_abs_deviation")),
            ["1", "40", "2.0"]),
}


def limits(ctx):
    o = PO.CategoricalOptions()
    o.top_k_categories = ctx.pick("top", [None, 1, 2])
    o.max_sample_size_to_check_stop_condition = ctx.pick("stop after", [None, 2])
    o.stop_condition_unique_value_ratio = 0.5 if o.max_sample_size_to_check_stop_condition else None
    return lambda: CategoricalColumn("c", o)


def texts(ctx, kind, n, m, merge=False, lim=False):
    make, words = WORDS[kind]
    if lim:
        make = limits(ctx)

    def batch(tag, k):
        return pd.Series([ctx.pick("%s%d" % (tag, i), words) for i in range(k)], dtype=object)

    p = make()
    if n:
        p.update(batch("x", n))
    q = trip(ctx, p, load_column_profile)
    y = batch("y", m)
    if merge:
        same(ctx, "report", p.profile, q.profile)
        o = make()
        o.update(y)
        same(ctx, "merged report", (p + o).profile, (q + o).profile)
        same(ctx, "merged report, other way", (o + p).profile, (o + q).profile)
    else:
        follow(ctx, p, q, y.copy)


BIG = [0, 127, 300, 70000, 2 ** 33, 2 ** 53 + 1]
FINE = [0.1, 16777217.0, 123456789.125, 1e-12, 1e300]


def magnitudes(ctx, kind):
    """every number a column keeps comes back exactly, whatever its size"""
    make, words = WORDS[kind]
    p = make()
    p.update(pd.Series(words, dtype=object))
    big, fine = ctx.pick("count", BIG), ctx.pick("real", FINE)
    kept = {}
    for i, (k, v) in enumerate(sorted(vars(p).items())):
        if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            kept[k] = big + i
        elif isinstance(v, (float, np.floating)):
            kept[k] = fine * (i + 1)
    for k, v in kept.items():
        vars(p)[k] = v
    q = trip(ctx, p, load_column_profile)
    for k, v in kept.items():
        ctx.check("%s comes back exactly" % k, k in vars(q) and vars(q)[k] == v)


class Labeler(p21.Labeler, BaseDataLabeler):
    _default_model_loc = "structured_model"
    model = None
    label_mapping = p21.Labeler.label_mapping
    reverse_label_mapping = p21.Labeler.reverse_label_mapping


def labels(ctx, n, m, zero=False):
    names = ["A", "B"]
    lab = Labeler(ctx, names, zero)
    p = p21.make(ctx, lab)
    p.update(pd.Series(p21.conf(ctx, lab, "x", n, 2), dtype=object))
    config = {"DataLabelerColumn": {"from_library": {"structured_model": lab}},
              "DataLabelerOptions": {"from_library": {"structured_model": lab}}}
    q = trip(ctx, p, load_column_profile, config)
    ctx.check("class of the loaded column", type(q) is DataLabelerColumn)
    ctx.check("labeler of the loaded column", q.data_labeler is lab)
    more = p21.conf(ctx, lab, "y", m, 2)
    follow(ctx, p, q, lambda: pd.Series(more, dtype=object))


FULL = ("int", "float", "datetime", "text", "order", "category", "hist")


def tables(ctx, method, n, m, cols=("a", "b"), cell=None, on=("int", "float", "text", "order",
                                                              "category"), nulls=False, **opts):
    """a whole profile, symbolic numbers without `cell`; nulls: texts declared to be null"""
    def table(tag, rows, start):
        if cell:
            t = [[ctx.pick("%s%d%d" % (tag, i, j), cell) for j in range(len(cols))]
                 for i in range(rows)]
        else:
            t = [["nan" if ctx.choose("%sn%d%d" % (tag, i, j), 2)
                  else ctx.real("%s%d%d" % (tag, i, j), -50, 50) for j in range(len(cols))]
                 for i in range(rows)]
        return lambda: frame(ctx, t, cols, start, symbolic=not cell)

    po = options(on=on, rows=bool(cell), **opts)
    if nulls:
        flag = [0, re.IGNORECASE][ctx.choose("flag", 2)]
        if ctx.choose("all columns", 2):
            po.structured_options.null_values = {"x": flag}
        if ctx.choose("one column", 2):
            po.structured_options.column_null_values = {len(cols) - 1: {"1": flag}}
    d1, d2 = table("x", n, 0), table("y", m, n)
    p = profiler(po, d1())
    q = disk(ctx, p, method)
    fmt = dict(output_format="serializable")
    same(ctx, "report", p.report(fmt), q.report(fmt))
    what = ctx.choose("then", 2)
    if what == 0:
        for z in (p, q):
            random.seed(0)
            z.update_profile(d2())
        same(ctx, "report after an update", p.report(fmt), q.report(fmt))
    else:
        o = profiler(po, d2())
        try:
            e = (p + o).report(fmt), (o + p).report(fmt)
        except ValueError:
            return                          # profiles which cannot be merged
        same(ctx, "merged report", e[0], (q + o).report(fmt))
        same(ctx, "merged report, other way", e[1], (o + q).report(fmt))
        if cell:
            same(ctx, "difference", p.diff(o), q.diff(o))


def fault(ctx, p, method):
    """saving that may fail anywhere: True if it did"""
    way = ctx.choose("fault", 5)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "no", "profile") if way == 1 else d if way == 2 else os.path.join(
            d, "profile")
        mods = pickle, json
        old = [m.dump for m in mods]

        def dump(obj, f, **k):
            if way == 4:
                f.write(b"part" if method == "pickle" else "part")
            raise OSError("no space left on device")
        try:
            if way > 2:
                for m in mods:
                    m.dump = dump
            p.save(path, method)
        except Exception:
            ctx.check("saving succeeds without a fault", way > 0)
            return True
        finally:
            for m, o in zip(mods, old):
                m.dump = o
        ctx.check("a fault is reported", way == 0)
    return False


def faults(ctx, kind, method):
    """a profile stays as it is, with its labeler, whether or not saving succeeds"""
    lab = Labeler(ctx, ["A", "B"], False)
    lab.rows["v"] = [0.9, 0.1]
    po = options(on=("category",))
    for o in (po.structured_options, po.unstructured_options):
        o.data_labeler.is_enabled = True
        o.data_labeler.data_labeler_object = lab
    if kind == "text":
        p = UnstructuredProfiler(None, options=po)
    else:
        p = StructuredProfiler(None, options=po, min_true_samples=0)
        if ctx.choose("data", 2):
            p.update_profile(frame(ctx, [["v"]], ["a"]))

    def labelers():
        out = [p.options.data_labeler.data_labeler_object]
        for c in p._profile if kind == "table" else ():
            out.append(c.profiles["data_label_profile"]._profiles["data_labeler"].data_labeler)
        return out

    before = p.report() if kind == "table" else None
    fault(ctx, p, method)
    for x in labelers():
        ctx.check("the profile keeps its labeler", x is lab)
    if kind == "table":
        same(ctx, "report", before, p.report())
        p.update_profile(frame(ctx, [["v"]], ["a"], 1))
        ctx.check_eq("rows", p.total_samples, before["global_stats"]["row_count"] + 1)


def flags(ctx, names):
    """options: any of the named switches and values"""
    po = PO.ProfilerOptions()
    so = po.structured_options
    so.data_labeler.is_enabled = False
    for path in names:
        head, _, last = path.rpartition(".")
        o = so
        for part in filter(None, head.split(".")):
            o = getattr(o, part)
        old = getattr(o, last)
        setattr(o, last, (bool(ctx.choose(path, 2)) if isinstance(old, bool)
                          else ctx.int(path, 1, 50)))
    back = trip(ctx, po, load_option)
    compare(ctx, "options", po, back)


def compare(ctx, name, a, b):
    ctx.check(name + ": class", type(a) is type(b) and set(vars(a)) == set(vars(b)))
    for k, v in vars(a).items():
        w = getattr(b, k)
        if isinstance(v, PO.BaseOption):
            compare(ctx, name + "." + k, v, w)
        else:
            same(ctx, name + "." + k, sorted(v) if isinstance(v, set) else v,
                 sorted(w) if isinstance(v, set) and isinstance(w, (set, list)) else w)


ALL = ["histogram_and_quantiles", "mode", "median", "skewness", "kurtosis"]
CELLS = ["1", "2.5", "x", ""]
HARNESSES = [
    Harness(numeric,
            quick=[dict(kind=k, n=n, m=m, merge=mg) for k in ("float", "int", "text")
                   for n, m, mg in ((2, 1, False), (2, 2, True), (0, 2, False))]
            + [dict(kind="float", n=1, m=2, on=["skewness", "kurtosis"]),
               dict(kind="int", n=2, m=1, on=["skewness"], bias=False)],
            thorough=[dict(kind=k, n=3, m=2, on=["skewness", "kurtosis"], merge=mg)
                      for k in ("float", "int") for mg in (False, True)]
            + [dict(kind="int", n=1, m=1, on=["histogram_and_quantiles", "median", "mode"])],
            bounds="2 (thorough 3) numbers before and 2 after saving"),
    Harness(magnitudes, quick=[dict(kind=k) for k in sorted(WORDS)],
            bounds="counters of 0 to 2**53, reals of 1e-12 to 1e300, each kind of column"),
    Harness(texts,
            quick=[dict(kind=k, n=n, m=m, merge=mg) for k in sorted(WORDS)
                   for n, m, mg in ((2, 1, False), (1, 1, True), (0, 1, False))]
            + [dict(kind="category", n=2, m=1, lim=True)],
            thorough=[dict(kind=k, n=3, m=2, merge=mg) for k in sorted(WORDS)
                      for mg in (False, True)] + [dict(kind="category", n=3, m=2, lim=True)],
            bounds="each kind of column, 2 (thorough 3) cells of 3-4 texts before and 1 (2) after"),
    Harness(labels, quick=[dict(n=2, m=1), dict(n=1, m=1, zero=True)],
            thorough=[dict(n=2, m=2), dict(n=3, m=1)],
            bounds="2 (thorough 3) cells with any confidences for two labels"),
    Harness(tables,
            quick=[dict(method="json", n=1, m=1, on=("float",)),
                   dict(method="json", n=2, m=1, on=("float",), cols=("a",)),
                   dict(method="json", n=1, m=1, on=("float",), nullrep=True),
                   dict(method="json", n=1, m=1, cell=CELLS[:3], cols=(0, 1)),
                   dict(method="json", n=1, m=1, cell=["1", "x"], cols=("1", "0")),
                   dict(method="json", n=1, m=1, cell=["1", "x"], cols=("A", "A")),
                   dict(method="json", n=2, m=1, cell=CELLS, cols=("a",), on=FULL),
                   dict(method="json", n=1, m=1, cell=["1", "X"], nulls=True, on=("text",)),
                   dict(method="json", n=2, m=1, cell=["1", "3"], corr=True),
                   dict(method="json", n=2, m=1, cell=["u", "v"], chi2=True),
                   dict(method="pickle", n=1, m=1, cell=["1", ""], on=("float",), nullrep=True),
                   dict(method="pickle", n=2, m=1, cell=["1", "3"], cols=("a", "b"), corr=True,
                        on=("int", "float")),
                   dict(method="pickle", n=1, m=1, cell=["1", "x", ""], cols=("a",), on=FULL),
                   dict(method="pickle", n=1, m=1, cell=["1", "x"], cols=(0, 1)),
                   dict(method="pickle", n=1, m=1, cell=["1", "x"], cols=("A", "A"),
                        hashing="hll")],
            thorough=[dict(method="json", n=2, m=2, cell=CELLS, cols=("a",), on=FULL),
                      dict(method="json", n=2, m=1, on=("float", "order")),
                      dict(method="json", n=2, m=1, cell=["1", "x", ""], cols=("a", "b"),
                           nullrep=True),
                      dict(method="pickle", n=2, m=1, cell=CELLS, cols=("a",), on=FULL),
                      dict(method="pickle", n=2, m=1, cell=["1", ""], nullrep=True)],
            bounds="1-2 rows of 1-2 columns before and after saving, symbolic numbers or up to four "
                   "texts per cell, correlations, null replication, chi-squared matrix, column "
                   "names that are texts, integers, digits or equal"),
    Harness(faults, quick=[dict(kind="table", method="pickle"), dict(kind="text", method="pickle"),
                           dict(kind="table", method="json")],
            bounds="saving fails when opening, before or in the middle of writing, or succeeds"),
    Harness(flags,
            quick=[dict(names=["float.mode.is_enabled", "int.is_enabled",
                               "category.is_enabled", "correlation.is_enabled"]),
                   dict(names=["float.mode.top_k_modes", "sampling_ratio", "text.vocab.is_enabled",
                               "row_statistics.null_count.is_enabled"]),
                   dict(names=["float.num_zeros.is_enabled", "multiprocess.is_enabled",
                               "null_replication_metrics.is_enabled",
                               "float.histogram_and_quantiles.num_quantiles"])],
            bounds="any setting of up to four switches and values at a time"),
]
