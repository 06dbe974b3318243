"""P23: report formatting only removes or rounds."""
import copy

import numpy as np
import pandas as pd

from dataprofiler.profilers.helpers.report_helpers import _prepare_report, calculate_quantiles, flat_dict

from ..run import Harness
from .sutil import options, profiler

ASSUMPTIONS = [
    "omit paths name the keys from the top of the report; the elements of a list of dictionaries "
    "belong to the level of the list, columns in data_stats are named by their column name",
    "flat: no two key paths of the report join to the same key; keys are non-empty strings or, "
    "for leaves, integers",
]


def patterns(ctx, name, depth, names):
    """an omit path of up to `depth` parts"""
    d = 1 + ctx.choose(name + "len", depth)
    return ".".join(ctx.pick("%s%d" % (name, i), list(names) + ["*"]) for i in range(d))


def omitted(path, omit):
    return any(len(p) == len(path) and all(x in ("*", y) for x, y in zip(p, path))
               for p in (o.split(".") for o in omit))


def same(ctx, what, got, want):
    if isinstance(want, dict):
        ctx.check(what + ": keys", isinstance(got, dict) and list(map(str, got)) ==
                  list(map(str, want)))
        if not isinstance(got, dict) or len(got) != len(want):
            return
        for g, w in zip(got.values(), want.values()):
            same(ctx, what, g, w)
    elif isinstance(want, (list, np.ndarray)):
        ok = isinstance(got, (list, np.ndarray)) and len(got) == len(want)
        ctx.check(what + ": list", ok)
        if not ok:
            return
        for g, w in zip(got, want):
            same(ctx, what, g, w)
    elif want is None or isinstance(want, (str, bool, set)):
        ctx.check(what + ": value", got is want or got == want)
    else:
        ctx.check_eq(what + ": value", got, want)


def expect(node, path, omit, fmt):
    out = {}
    for k, v in node.items():
        p = path + [str(k)]
        if omitted(p, omit):
            continue
        if k == "data_stats" and isinstance(v, list):
            out[k] = [None if omitted(p + [c["column_name"]], omit) else
                      expect(c, p + [c["column_name"]], omit, fmt) for c in v]
        elif k == "profile_schema":
            out[k] = v  # shown as it is
        elif isinstance(v, set):
            out[k] = np.array2string(np.array(sorted(v)), separator=", ") if (
                fmt == "pretty") else sorted(v)
        elif isinstance(v, dict):
            out[k] = expect(v, p, omit, fmt)
        elif isinstance(v, list) and v and all(isinstance(e, dict) for e in v) and fmt in (
                "pretty", "serializable"):
            out[k] = [expect(e, p, omit, fmt) for e in v]
        elif fmt == "pretty" and isinstance(v, float):
            out[k] = round(v, 4)
        elif fmt == "pretty" and isinstance(v, (list, np.ndarray)):
            out[k] = np.array2string(np.array(v), separator=", ") if len(v) <= 5 else str
        elif fmt == "serializable" and isinstance(v, np.ndarray):
            out[k] = v.tolist()
        else:
            out[k] = v
    return flat(out) if fmt == "flat" and not path else out


def flat(node, pre=""):
    out = {}
    for k, v in node.items():
        key = pre + "_" + str(k) if pre else k
        if isinstance(v, dict):
            out.update(flat(v, str(key)))
        else:
            out[key] = [flat(e) if isinstance(e, dict) else e for e in v] if (
                k == "data_stats" and isinstance(v, list)) else v
    return out


def leaves(ctx, n, fmt):
    if fmt == "pretty":
        vals = [1.23456, float("nan"), 7, "text", -0.00004]
        return [vals[i % len(vals)] for i in range(n)]
    return ctx.reals("x", n)


def tree(ctx, fmt, lists):
    x = leaves(ctx, 8, fmt)
    rep = {"a": {"a": {"a": x[0], "b": x[1]}, "b": x[2]}, "b": {"b": {"a": x[3]}, "c": None},
           "c": x[4]}
    if lists:
        rep["l"] = [{"a": x[5], "b": {"a": x[6]}}, {"b": x[7]}]
        rep["n"] = [1, 2, 3]
        rep["v"] = np.array([1.5, 2.5])
        rep["s"] = {10, 9, 2}
    return rep


def run(ctx, rep, fmt, omit, spell=None):
    """format; the report and the omit list stay as they were"""
    before, keys = copy.deepcopy(rep), list(omit)
    got = _prepare_report(rep, spell or fmt, omit)
    ctx.check("omit list of the caller unchanged", omit == keys)
    same(ctx, "report of the caller unchanged", rep, before)
    return got


def paths(ctx, fmt, omits, depth, lists=False, names="abc"):
    rep = tree(ctx, fmt, lists)
    omit = [patterns(ctx, "p%d_" % i, depth, names) for i in range(omits)]
    got = run(ctx, rep, fmt, omit)
    same(ctx, "report", got, expect(rep, [], omit, fmt))


def columns(ctx, fmt, omits, depth):
    """structured reports: one entry per column, a dropped column leaves None"""
    x = leaves(ctx, 5, fmt)
    rep = {"global_stats": {"u": x[0], "profile_schema": {"u": [0], "v": [1]}},
           "data_stats": [{"column_name": "u", "statistics": {"s": x[1], "u": x[2]}},
                          {"column_name": "v", "statistics": {"s": x[3]}, "u": x[4]}]}
    omit = []
    for i in range(omits):
        d = 1 + ctx.choose("len%d" % i, depth)
        opts = [["global_stats", "data_stats", "*"], ["u", "v", "*"],
                ["statistics", "u", "*"], ["s", "u", "*"]]
        omit.append(".".join(ctx.pick("p%d_%d" % (i, j), opts[j]) for j in range(d)))
    got = run(ctx, rep, fmt, omit)
    want = expect(rep, [], omit, fmt)
    same(ctx, "report", got, want)


def compact(ctx, n):
    """compact is pretty without the documented detailed statistics, also when called again"""
    gone = ["times", "avg_predictions", "data_label_representation", "null_types_index",
            "histogram"]
    stats = {k: i + 0.5 for i, k in enumerate(gone[ctx.choose("from", 5):] + ["min"])}
    stats["max"] = 2.55555
    rep = {"global_stats": {"times": 1}, "data_stats": [
        {"column_name": "c%d" % i, "statistics": dict(stats)} for i in range(n)]}
    omit = [patterns(ctx, "p", 2, ["global_stats", "data_stats"])] if ctx.choose("own", 2) else []
    detail = ["data_stats.*.statistics." + k for k in gone]
    same(ctx, "compact", run(ctx, rep, "compact", omit),
         expect(rep, [], omit + detail, "pretty"))
    same(ctx, "pretty afterwards", run(ctx, rep, "pretty", omit), expect(rep, [], omit, "pretty"))
    same(ctx, "as it is", run(ctx, rep, None, omit), expect(rep, [], omit, None))


def lengths(ctx, top):
    """long lists are shortened to their ends when pretty, never when serializable"""
    n = ctx.choose("n", top + 1)
    wide = ctx.choose("wide", 2)
    xs = [i * 111111 if wide else i for i in range(n)]
    as_array = ctx.choose("array", 2)
    rep = {"k": {"v": np.array(xs) if as_array else list(xs)}}
    same(ctx, "serializable", _prepare_report(rep, "serializable"), {"k": {"v": xs}})
    got = _prepare_report(rep, "pretty")["k"]["v"]
    if not n:
        ctx.check("empty list", str(got) == "[]")
        return
    full = "[" + ", ".join(map(str, xs)) + "]"
    norm = "".join(got.split())
    if "..." not in norm:
        # columns may be padded to equal width
        ctx.check("complete", norm == "".join(full.split()))
        return
    ctx.check("only long lists are cut",
              len(np.array2string(np.array(xs), separator=", ")) > 50 and n > 5)
    head, tail = norm.split(",...,")
    full = "".join(full.split())
    ctx.check("starts with the first values", full.startswith(head + ","))
    ctx.check("ends with the last values", full.endswith("," + tail))
    ctx.check("some values on both ends", len(head) > 1 and len(tail) > 1)


def quantiles(ctx, n):
    qs = ctx.reals("q", n)
    g = ctx.choose("groups", n + 3)
    got = calculate_quantiles(g, list(qs))
    judge(ctx, got, g, n, lambda i: qs[i])


def every(ctx, n):
    """all group counts of a full list of n quantiles"""
    g = ctx.choose("groups", n + 2)
    got = calculate_quantiles(g, list(range(n)))
    judge(ctx, got, g, n, lambda i: i)


def judge(ctx, got, g, n, at):
    if not 0 < g <= n + 1:
        g = 4
    ctx.check("one cut point less than groups", list(got) == list(range(g - 1)))
    for i in range(g - 1):
        # the first quantile at or above the share (i + 1) / g
        ctx.check_eq("evenly spaced", got[i], at(-(-(i + 1) * (n + 1) // g) - 1))


def flatten(ctx, sep):
    a, b, c, d = ctx.reals("x", 4)
    key = ctx.pick("key", ["k", "two words"])
    od = {key: {"p": a, 0: b, "q": {"r r": c}}, "z": d, "e": {}}
    got = flat_dict(od, sep)
    k = key.replace(" ", "_")
    want = {k + sep + "p": a, k + sep + "0": b, k + sep + "q" + sep + "r r": c, "z": d}
    ctx.check("keys", set(got) == set(want))
    for n in want:
        ctx.check_eq("value", got[n], want[n])


def plain(node):
    """a deep copy of a report without its measured times"""
    if isinstance(node, dict):
        return {k: plain(v) for k, v in node.items() if "times" not in str(k)}
    if isinstance(node, list):
        return [plain(v) for v in node]
    return sorted(node) if isinstance(node, (set, frozenset)) else copy.deepcopy(node)


def agree(ctx, what, got, want):
    """got holds keys of want only, with the same values"""
    if isinstance(want, dict):
        ctx.check(what + ": no other keys", {str(k) for k in got} <= {str(k) for k in want})
        by = {str(k): v for k, v in want.items()}
        for k in got:
            agree(ctx, what, got[k], by[str(k)])
    elif isinstance(want, list) and want and all(isinstance(e, dict) for e in want):
        ctx.check(what + ": list", len(got) == len(want))
        for g, w in zip(got, want):
            agree(ctx, what, g, w)
    else:
        same(ctx, what, got, want)


def repeat(ctx, on, calls):
    """reporting does not change the profile, whatever was reported before"""
    data = pd.DataFrame({"u": ["1", "2.5", "", "4"], "v": ["x", "y", "x", " "],
                         "w": ["1/1/20", "2/1/20", "", "3/1/20"]})
    po = options(on, corr=True, nullrep=True)
    prof = profiler(po, data)
    first = plain(prof.report())
    for i in range(calls):
        o = {"output_format": ctx.pick("fmt%d" % i, [None, "serializable", "pretty", "compact",
                                                   "flat"]),
             "num_quantile_groups": ctx.pick("q%d" % i, [4, 10, 1]),
             "remove_disabled_flag": bool(ctx.choose("rm%d" % i, 2))}
        rep = plain(prof.report(o))
        if o["output_format"] in (None, "serializable") and o["num_quantile_groups"] == 4:
            agree(ctx, "report", rep, first)
        same(ctx, "the same report again", plain(prof.report(o)), rep)
        same(ctx, "the plain report again", plain(prof.report()), first)


FMTS = [None, "serializable", "pretty", "flat"]
HARNESSES = [
    Harness(paths, quick=[dict(fmt=f, omits=1, depth=3) for f in FMTS] +
            [dict(fmt=f, omits=1, depth=2, lists=True, names="abl")
             for f in (None, "serializable", "pretty")] +
            [dict(fmt=None, omits=2, depth=2, names="ab"), dict(fmt="pretty", omits=0, depth=1)],
            thorough=[dict(fmt=f, omits=2, depth=3, names="ab") for f in (None, "pretty")] +
            [dict(fmt="serializable", omits=2, depth=2, lists=True, names="abl")],
            bounds="reports of 3 levels, up to 2 omit paths of up to 3 parts"),
    Harness(columns, quick=[dict(fmt=f, omits=1, depth=4) for f in (None, "serializable", "flat")] +
            [dict(fmt="pretty", omits=2, depth=2)],
            thorough=[dict(fmt="pretty", omits=2, depth=3)],
            bounds="two columns, up to 2 omit paths of up to 4 parts"),
    Harness(compact, quick=[dict(n=0), dict(n=1), dict(n=2)], bounds="up to 2 columns"),
    Harness(lengths, quick=[dict(top=20)], thorough=[dict(top=60)],
            bounds="lists of up to 20 (thorough 60) numbers"),
    Harness(quantiles, quick=[dict(n=n) for n in (3, 4, 7, 9)], thorough=[dict(n=30)],
            bounds="up to 9 quantiles (thorough 30) of any value, every group count"),
    Harness(every, quick=[dict(n=99)], thorough=[dict(n=999)],
            bounds="every group count for 99 quantiles (thorough 999)"),
    Harness(repeat, quick=[dict(on=["int", "float", "text", "datetime", "category", "order"],
                                calls=1), dict(on=["float", "hist", "category"], calls=1)],
            thorough=[dict(on=["float", "hist", "text"], calls=2)],
            bounds="one profiled table, every sequence of up to 1 (thorough 2) report options"),
    Harness(flatten, quick=[dict(sep=s) for s in ("_", ".", "--")], bounds="one nested dictionary"),
]
