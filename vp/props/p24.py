"""P24: a column's data type is the most specific type all its values match."""
import re

import pandas as pd

from dataprofiler.profilers.numerical_column_stats import NumericStatsMixin

from ..run import Harness
from .sutil import frame, options, profiler

ASSUMPTIONS = [
    "a float is a text Python reads as a number (infinite ones too), an int one whose value is "
    "integral; dates are judged by P10, here a cell is a clear date or none",
    "batches of up to 4 values, so a single date already passes the one in ten rule of P10",
]
NAMES = {"string": "text"}
TYPES = ("datetime", "int", "float", "text")
NUMERAL = re.compile(r"\s*[+-]?(\d+(_\d+)*(\.(\d+(_\d+)*)?)?|\.\d+(_\d+)*)([eE][+-]?\d+(_\d+)*)?\s*$")
NULL = {"", "nan", "None", "none", "null"}


def matches(cell):
    """the types a non-null cell matches; None for a null"""
    if cell.strip() in NULL:
        return None
    m = {"text"}
    if re.match(r"\d\d?/\d\d?/\d\d$", cell):
        return m | {"datetime"}
    if re.match(r"\s*[+-]?inf(inity)?\s*$", cell, re.I):
        return m | {"float"}
    if NUMERAL.match(cell):
        m.add("float")
        v = float(cell)
        if v in (float("inf"), float("-inf")):
            return m
        if v == int(v):
            m.add("int")
    return m


def judge(ctx, p, cells):
    col = p.report()["data_stats"][0]
    got = [matches(c) for c in cells]
    got = [g for g in got if g is not None]
    rep = {NAMES.get(k, k): v
           for k, v in col["statistics"].get("data_type_representation", {}).items()}
    want = None
    for t in TYPES:
        n = sum(t in g for g in got)
        if got:
            ctx.check_eq("share of %s values" % t, rep[t], n / len(got))
            if want is None and n == len(got):
                want = t
    longest = max([len(c) for c in cells if matches(c) is not None] or [0])
    name = ("string" if longest <= 255 else "text") if want == "text" else want
    ctx.check("data type", col["data_type"] == name)
    ctx.check("data type for comparisons", p.profile[0].profiles[
        "data_type_profile"].selected_data_type == want)
    vals = [c for c in cells if matches(c) is not None]
    st = col["statistics"]
    if want in ("int", "float") and not any("inf" in c for c in vals):
        nums = [float(c) for c in vals]
        if max(map(abs, nums)) < 1e300:
            ctx.check_eq("sum of the numbers", st["sum"], sum(nums))
        ctx.check_eq("largest number", st["max"], max(nums))
    if want == "text":
        ctx.check_eq("shortest text", st["min"], min(map(len, vals)))
        ctx.check_eq("all characters", st["sum"], sum(map(len, vals)))
    if want == "datetime":
        ctx.check("dates", st["format"] == ["%m/%d/%y"] or len(st["format"]) >= 1)


def opts():
    return options(on=("int", "float", "text", "datetime"), rows=False)


def column(cells, start=0):
    return pd.DataFrame({"c": pd.Series(cells, dtype=object,
                                        index=range(start, start + len(cells)))})


KINDS = ["3", "2.5", "x", "2/13/20", ""]
MORE = ["7.0", " 4 ", "1e400", "+", "1_0", "inf", "0x1", "1e2"]


def updates(ctx, sizes, cells=tuple(KINDS)):
    p, seen = profiler(opts()), []
    for b, n in enumerate(sizes):
        new = [ctx.pick("c%d_%d" % (b, i), list(cells)) for i in range(n)]
        p.update_profile(column(new))
        seen += new
        judge(ctx, p, seen)


def many(ctx, n, merge):
    """a single value of another kind in a long column"""
    main = ctx.pick("most", ["3", "2.5"])
    cells = [main] * n
    cells[[0, n // 2, n - 1][ctx.choose("where", 3)]] = ctx.pick("one", [k for k in KINDS if "/" not in k])
    p = profiler(opts(), column(cells[:n // 3]))
    if merge:
        p = p + profiler(opts(), column(cells[n // 3:]))
    else:
        p.update_profile(column(cells[n // 3:]))
    judge(ctx, p, cells)


def merges(ctx, sizes, cells=tuple(KINDS), after=0):
    acc, seen = None, []
    for b, n in enumerate(sizes):
        new = [ctx.pick("c%d_%d" % (b, i), list(cells)) for i in range(n)]
        p = profiler(opts(), column(new))
        acc = p if acc is None else acc + p
        seen += new
    judge(ctx, acc, seen)
    if after:
        new = [ctx.pick("a%d" % i, list(cells)) for i in range(after)]
        acc.update_profile(column(new))
        judge(ctx, acc, seen + new)


def numbers(ctx, sizes, merge=False, other=None):
    """any real numbers: an int column exactly when all are integral"""
    po = options(on=("int", "float"), rows=False)
    p, seen = None, []
    for b, n in enumerate(sizes):
        new = ctx.reals("x%d_" % b, n, -50, 50)
        d = frame(ctx, [[v] for v in new] + [[other]] * (other is not None and b == 0), ["c"],
                  symbolic=True)
        q = profiler(po, d) if merge or p is None else None
        if q is None:
            p.update_profile(d)
        else:
            p = q if p is None else p + q
        seen += new
    whole = [ctx.integral(v) for v in seen]
    n = len(seen)
    col = p.report()["data_stats"][0]
    if other is not None:
        ctx.check("no numeric type", col["data_type"] is None)
        return
    rep = col["statistics"]["data_type_representation"]
    ctx.check_eq("share of ints", rep["int"] * n, ctx.count(whole))
    ctx.check_eq("share of floats", rep["float"] * n, len(seen))
    ctx.check("int", ctx.iff(col["data_type"] == "int", ctx.all(whole)))
    ctx.check("float", ctx.iff(col["data_type"] == "float", ctx.not_(ctx.all(whole))))
    ctx.check_eq("sum", col["statistics"]["sum"], ctx.sum(seen))
    ctx.check_eq("minimum", col["statistics"]["min"], ctx.min(seen))


def counts(ctx):
    """columns of any length: the type all values match, not nearly all"""
    p = profiler(options(on=("int", "float", "text"), rows=False), column(["3"]))
    comp = p.profile[0].profiles["data_type_profile"]
    n = ctx.int("n", 1, 10 ** 9)
    ms = {"text": n}
    for t in ("int", "float"):
        ms[t] = ctx.int("m_" + t, 0, 10 ** 9)
        ctx.assume(ms[t] <= n)
    for t, c in comp._profiles.items():
        c.sample_size, c.match_count = n, ms[t]
    rep = comp.report()
    i, f = ms["int"] == n, ms["float"] == n
    for name, g in (("data type", NAMES.get(rep["data_type"], rep["data_type"])),
                    ("data type for comparisons", comp.selected_data_type)):
        ctx.check(name + ": int", ctx.iff(g == "int", i))
        ctx.check(name + ": float", ctx.iff(g == "float", ctx.all([ctx.not_(i), f])))
        ctx.check(name + ": text", ctx.iff(g == "text", ctx.all([ctx.not_(i), ctx.not_(f)])))
    for k in ("int", "float"):
        ctx.check_eq("share of " + k, rep["data_type_representation"][k] * n, ms[k])


def numerals(ctx, alphabet, n):
    text = "".join(ctx.pick("c%d" % i, list(alphabet)) for i in range(n))
    m = matches(text)
    if m is None or "datetime" in m:
        return
    ctx.check("float", bool(NumericStatsMixin.is_float(text)) == ("float" in m))
    ctx.check("int", bool(NumericStatsMixin.is_int(text)) == ("int" in m))


HARNESSES = [
    Harness(updates, quick=[dict(sizes=s) for s in ([1], [2], [3], [1, 1], [2, 1])] +
            [dict(sizes=[1, 1], cells=KINDS + MORE), dict(sizes=[1, 1, 1], cells=KINDS[:4])],
            thorough=[dict(sizes=[2, 2]), dict(sizes=[2, 1], cells=KINDS + MORE)],
            bounds="up to 3 cells (thorough 4) of 5 to 13 kinds in up to 3 batches"),
    Harness(many, quick=[dict(n=240, merge=False), dict(n=240, merge=True)],
            thorough=[dict(n=2400, merge=False)],
            bounds="columns of 240 (thorough 2400) numbers with one other cell"),
    Harness(merges, quick=[dict(sizes=[1, 1]), dict(sizes=[2, 1]), dict(sizes=[1, 1], after=1),
                           dict(sizes=[1, 1], cells=KINDS + MORE)],
            thorough=[dict(sizes=[1, 1, 1]), dict(sizes=[2, 2])],
            bounds="two operands of up to 2 cells, then one more update"),
    Harness(numbers, quick=[dict(sizes=s) for s in ([1], [2], [1, 1], [3])] +
            [dict(sizes=[1, 1], merge=True), dict(sizes=[2], other="x")],
            thorough=[dict(sizes=[2, 1]), dict(sizes=[2, 1], merge=True), dict(sizes=[4])],
            bounds="up to 3 (thorough 4) real numbers in [-50,50]"),
    Harness(counts, bounds="any counts up to 10**9"),
    Harness(numerals, quick=[dict(alphabet="07.-", n=3), dict(alphabet="1.e+", n=4),
                             dict(alphabet="0_x ", n=3), dict(alphabet="infa", n=3)],
            thorough=[dict(alphabet="05.e-", n=5)],
            bounds="texts of up to 4 characters (thorough 5) of small alphabets"),
]
