"""P25: validation of range and list rules."""
import dask as dask_lib
import dask.dataframe as dd
import pandas as pd

from dataprofiler.validators.base_validators import Validator

from ..run import Harness

ASSUMPTIONS = ["pandas frames report row labels, dask frames row positions"]


def frame(ctx, cols, text, index=None):
    return pd.DataFrame({c: ctx.series(v, text=text) if text else
                         (ctx.series(v) if ctx.symbolic else pd.Series(v, dtype=object))
                         for c, v in cols.items()}).set_index(
        pd.Index(index if index is not None else range(len(next(iter(cols.values()))))))


def rows(ctx, got, labels, hits, what):
    ctx.check(what + ": rows of the frame, once each",
              len(set(got)) == len(got) and set(got) <= set(labels))
    for lab, h in zip(labels, hits):
        ctx.check(what + " reported exactly when it holds", ctx.iff(lab in got, h))
    ctx.check(what + " in frame order", list(got) == [lab for lab in labels if lab in set(got)])


def values(ctx, kind, name, n):
    return ctx.reals(name, n) if kind == "real" else ctx.ints(name, n, relaxed=True)


def rules(ctx, n, items, kind="real", text=False, index=None, cols=1, both=True):
    data = {"c%d" % i: values(ctx, kind, "x%d" % i, n) for i in range(cols)}
    df = frame(ctx, data, text, index)
    conf, want = {}, {}
    for i, c in enumerate(data):
        lo, hi = ctx.real("lo%d" % i), ctx.real("hi%d" % i)
        lst = list(ctx.reals("m%d" % i, items))
        conf[c] = {"range": {"start": lo, "end": hi}}
        if both:
            conf[c]["list"] = lst
        want[c] = ([ctx.all([lo <= v, v <= hi]) for v in data[c]],
                   [ctx.any([v == m for m in lst]) for v in data[c]])
    v = Validator()
    v.validate(df, {"df_type": "Pandas", "known_anomaly_validation": conf})
    got = v.get()
    ctx.check("columns of the configuration", set(got) == set(data))
    for c in data:
        rows(ctx, got[c]["range"], list(df.index), want[c][0], "range")
        if both:
            rows(ctx, got[c]["list"], list(df.index), want[c][1], "list")


def again(ctx, n):
    """a validator used for several configurations reports the last one only"""
    data = {c: values(ctx, "real", c, n) for c in "cd"}
    df = frame(ctx, data, False)
    v = Validator()
    for k in range(2):
        lo, hi = ctx.real("lo%d" % k), ctx.real("hi%d" % k)
        c = ctx.pick("column%d" % k, ["c", "d"])
        v.validate(df, {"df_type": "pandas",
                        "known_anomaly_validation": {c: {"range": {"start": lo, "end": hi}}}})
        got = v.get()
        ctx.check("results of this run only", set(got) == {c} and set(got[c]) == {"range"})
        rows(ctx, got[c]["range"], list(df.index),
             [ctx.all([lo <= x, x <= hi]) for x in data[c]], "range")


def malformed(ctx):
    """configurations that are no rules are refused and give no results"""
    df = pd.DataFrame({"c": [ctx.pick("cell", ["1", "x", 2.5, ""])]})
    kind = ctx.pick("df_type", ["pandas", "PANDAS", "spark", "", None])
    rule = ctx.pick("rule", [{"range": {"start": 0, "end": 9}}, {"list": [1.0, 2.5]}, {}, {"min": 1},
                             {"range": {"start": 0}}, {"range": {"start": "a", "end": 9}},
                             {"range": {"start": "0", "end": "9"}}, {"range": [1.0, 2.5]}])
    conf = {"known_anomaly_validation": {"c": rule}}
    if kind is not None:
        conf["df_type"] = kind
    if ctx.choose("no configuration", 2):
        conf = {}
    cell = df["c"][0]
    good = (bool(conf) and str(kind).lower() == "pandas" and cell not in ("x", "") and rule
            and "min" not in rule and set(rule.get("range", {"start": 0, "end": 0})) ==
            {"start", "end"} and rule.get("range", {}).get("start") != "a")
    v = Validator()
    try:
        v.validate(df, conf)
    except (ValueError, TypeError, Warning):
        ctx.check("only malformed configurations are refused", not good)
        try:
            v.get()
        except Warning:
            return
        ctx.fail("no results without a completed run")
        return
    ctx.check("malformed configurations are refused", good)
    ctx.check("row of the column", list(v.get()["c"].values()) == [[0]])


def dask(ctx, n, parts, first=0):
    nums = [ctx.pick("x%d" % i, [-1.5, 0.0, 2.0, 3.25]) for i in range(n)]
    lo, hi = ctx.pick("lo", [-1.5, 0.0, 2.5]), ctx.pick("hi", [-1.5, 0.0, 2.5])
    lst = [ctx.pick("m0", [0.0, 2.0]), 3.25]
    v = Validator()
    with dask_lib.config.set(scheduler="synchronous"):
        v.validate(dd.from_pandas(pd.DataFrame(
            {"c": nums}, index=range(first, first + 2 * n, 2) if first else None), npartitions=parts),
                   {"df_type": "dask", "known_anomaly_validation": {
                       "c": {"range": {"start": lo, "end": hi}, "list": lst}}})
    got = v.get()["c"]
    rows(ctx, got["range"], list(range(n)), [lo <= x <= hi for x in nums], "range")
    rows(ctx, got["list"], list(range(n)), [x in lst for x in nums], "list")


HARNESSES = [
    Harness(rules, quick=[dict(n=1, items=2), dict(n=2, items=2), dict(n=3, items=1),
                          dict(n=2, items=1, text=True), dict(n=2, items=2, kind="int"),
                          dict(n=3, items=1, index=[7, 3, 5]), dict(n=1, items=0),
                          dict(n=1, items=1, cols=2), dict(n=4, items=0, both=False)],
            thorough=[dict(n=4, items=2), dict(n=3, items=3), dict(n=2, items=2, cols=2)],
            bounds="frames of up to 4 rows and 2 columns, lists of up to 2 (thorough 3) items, any "
            "real numbers, closed intervals of any two numbers (also empty ones)"),
    Harness(again, quick=[dict(n=1), dict(n=2)], bounds="2 rows of two columns, two configurations"),
    Harness(malformed, quick=[dict()], bounds="8 rules, 4 cells, 5 frame types"),
    Harness(dask, quick=[dict(n=1, parts=1), dict(n=2, parts=2, first=7), dict(n=3, parts=2)], thorough=[dict(n=4, parts=3)],
            bounds="frames of up to 3 rows in up to 2 partitions, 4 numbers"),
]
