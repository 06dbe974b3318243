"""P11: laws of profile differences."""
import datetime

import numpy as np

from dataprofiler.profilers import profiler_utils as U
from dataprofiler.profilers.numerical_column_stats import NumericStatsMixin

from ..run import Harness
from .sutil import frame, options, profiler
from .util import column, put

ASSUMPTIONS = [
    "numbers are reals in [-1000,1000] or missing; lists and sets hold distinct elements",
    "the text of a time difference is replaced by a token in symbolic runs (replays use the real one)",
    "the t-test and PSI entries of a numeric diff belong to P16 and are stubbed out here",
]
UN = "unchanged"


def maybe(ctx, tag):
    """a number or None"""
    return None if ctx.choose(tag + "_none", 2) else ctx.real(tag, -1000, 1000)


def neg(ctx, name, d, r):
    """r is the diff with the operands swapped"""
    if isinstance(d, str):
        ctx.check(name + ": both unchanged", isinstance(r, str) and d == r == UN)
    elif isinstance(d, list):
        ctx.check(name + ": swapped pair", isinstance(r, list) and r == d[::-1])
    else:
        ctx.check(name + ": not a pair", not isinstance(r, (str, list)))
        ctx.check_eq(name + ": negated", r, -d)


def law(ctx, name, got, a, b):
    """got = diff of two numbers or missing values"""
    if a is None or b is None:
        if a is None and b is None:
            ctx.check(name + ": both missing", isinstance(got, str) and got == UN)
        else:
            ctx.check(name + ": one missing", isinstance(got, list) and len(got) == 2
                      and got[0] is a and got[1] is b)
        return
    if isinstance(got, str):
        ctx.check(name + ": unchanged", got == UN)
        ctx.check_eq(name + ": unchanged only if equal", a, b)
    else:
        ctx.check(name + ": a number", not isinstance(got, (list, dict)))
        ctx.check(name + ": changed only if different", a != b)
        ctx.check_eq(name + ": difference", got, a - b)


def numbers(ctx):
    a, b = maybe(ctx, "a"), maybe(ctx, "b")
    got = U.find_diff_of_numbers(a, b)
    law(ctx, "numbers", got, a, b)
    neg(ctx, "numbers", got, U.find_diff_of_numbers(b, a))
    ctx.check("same number", U.find_diff_of_numbers(a, a) == UN)


def extremes(ctx):
    """very small, very large and infinite numbers"""
    vals = [0, 0.0, 1e-300, 1e-9, 1.0, 1 + 1e-9, 1e15, 1e15 + 1, float("inf"), float("-inf"),
            np.int64(3), np.float64(3)]
    a, b = ctx.pick("a", vals), ctx.pick("b", vals)
    got = U.find_diff_of_numbers(a, b)
    if a == b:
        ctx.check("unchanged", isinstance(got, str) and got == UN)
    else:
        ctx.check("difference", not isinstance(got, (str, list)) and got == a - b)


def strings(ctx):
    vals = ["x", "y", "", True, False, None]
    a, b = (ctx.pick("a", vals), ctx.pick("b", vals))
    got = U.find_diff_of_strings_and_bools(a, b)
    ctx.check("unchanged iff equal", (got == UN) == (a == b))
    if got != UN:
        ctx.check("pair", got == [a, b])


class Token:
    """symbolic point in time / time span"""

    def __init__(self, t):
        self.t = t

    def __ne__(self, o):
        return bool(self.t != o.t)

    def __eq__(self, o):
        return bool(self.t == o.t)

    def __hash__(self):
        return 0

    def __sub__(self, o):
        return Span(self.t - o.t)

    def __lt__(self, o):
        return bool(self.t < o.t)

    def __gt__(self, o):
        return bool(self.t > o.t)

    def strftime(self, f):
        return "at"


class Span(Token):
    table: list = []

    @property
    def days(self):
        return -1 if bool(self.t < 0) else 0

    def total_seconds(self):
        return self.t

    def __abs__(self):
        return Span(-self.t) if bool(self.t < 0) else self

    def __neg__(self):
        return Span(-self.t)

    def __str__(self):
        Span.table.append(self.t)
        return "<%d>" % (len(Span.table) - 1)


def dates(ctx):
    sec = [None if ctx.choose("none%d" % i, 2) else ctx.int("t%d" % i, 0, 10**9)
           for i in range(2)]
    Span.table = []
    day0 = datetime.datetime(1999, 12, 31)
    mk = Token if ctx.symbolic else (lambda t: day0 + datetime.timedelta(seconds=int(t)))
    a, b = [None if t is None else mk(t) for t in sec]
    got, back = U.find_diff_of_dates(a, b), U.find_diff_of_dates(b, a)
    if a is None or b is None:
        if a is None and b is None:
            ctx.check("both missing", got == UN)
        else:
            ctx.check("one missing", isinstance(got, list) and [g is None for g in got]
                      == [a is None, b is None] and back == got[::-1])
        return
    ctx.check("text", isinstance(got, str) and isinstance(back, str))
    if got == UN:
        ctx.check("unchanged only if equal", sec[0] == sec[1])
        ctx.check("swapped unchanged", back == UN)
        return
    ctx.check("changed only if different", sec[0] != sec[1])
    if ctx.symbolic:
        for d, e in ((got, sec[0] - sec[1]), (back, sec[1] - sec[0])):
            t = Span.table[int(d[2:-1])]
            ctx.check("sign", d[0] in "+-")
            ctx.check_eq("time difference", t if d[0] == "+" else -t, e)
            ctx.check("unsigned span", t >= 0)
    else:
        for d, e in ((got, a - b), (back, b - a)):
            s = str(abs(e))
            ctx.check("time difference",
                      d == ("+" if e >= datetime.timedelta(0) else "-") + s)


def elements(ctx, tag, n):
    xs = ctx.ints(tag, n, 0, 50)
    ctx.assume(ctx.all([x != y for i, x in enumerate(xs) for y in xs[:i]]))
    return xs


def part_law(ctx, name, got, xs, ys):
    """got = [only in xs, shared, only in ys]"""
    inx = [ctx.any([x == y for y in ys]) for x in xs]
    equal = ctx.all(inx) if len(xs) == len(ys) else False
    if isinstance(got, str):
        ctx.check(name + ": unchanged", got == UN)
        ctx.check(name + ": unchanged only if equal", equal)
        return
    ctx.check(name + ": three parts", isinstance(got, list) and len(got) == 3)
    ctx.check(name + ": changed only if different", ctx.not_(equal))
    a, s, b = [list(g) for g in got]

    def has(part, v):
        return ctx.any([v == p for p in part])

    for x in xs:
        sh = ctx.any([x == y for y in ys])
        ctx.check(name + ": element of the first",
                  ctx.all([ctx.iff(has(s, x), sh), ctx.iff(has(a, x), ctx.not_(sh))]))
    for y in ys:
        sh = ctx.any([x == y for x in xs])
        ctx.check(name + ": element of the second",
                  ctx.all([ctx.iff(has(s, y), sh), ctx.iff(has(b, y), ctx.not_(sh))]))
    ctx.check(name + ": nothing else", len(a) + len(s) == len(xs) and len(b) + len(s) == len(ys))


def lists(ctx, n, m, kind="list"):
    xs, ys = elements(ctx, "x", n), elements(ctx, "y", m)
    mk = list if kind == "list" else set
    a, b = mk(xs), mk(ys)
    got = U.find_diff_of_lists_and_sets(a, b)
    part_law(ctx, "lists", got, xs, ys)
    part_law(ctx, "swapped", U.find_diff_of_lists_and_sets(b, a), ys, xs)
    ctx.check("operands unchanged", len(a) == n and len(b) == m)
    for z in (U.find_diff_of_lists_and_sets(a, None), U.find_diff_of_lists_and_sets(None, a)):
        ctx.check("missing list", isinstance(z, list) and len(z) == 2 and None in z)


def bags(ctx, n, m):
    """lists with repeated elements: every occurrence belongs to one part"""
    xs = [ctx.pick("x%d" % i, [1, 2, 3]) for i in range(n)]
    ys = [ctx.pick("y%d" % i, [1, 2, 3]) for i in range(m)]
    for name, a, b in (("lists", xs, ys), ("swapped", ys, xs)):
        got = U.find_diff_of_lists_and_sets(list(a), list(b))
        equal = sorted(a) == sorted(b)
        ctx.check(name + ": unchanged exactly if equal", (got == UN) == equal)
        if not equal:
            only, both, other = got
            ctx.check(name + ": first", sorted(list(only) + list(both)) == sorted(a))
            ctx.check(name + ": second", sorted(list(other) + list(both)) == sorted(b))
            ctx.check(name + ": nothing shared is left", not set(only) & set(other))


def dicts(ctx, keys, nested=False):
    """same function for every arrangement of present and missing keys"""
    def make(tag):
        return {k: ctx.real("%s_%s" % (tag, k), -1000, 1000) for k in keys
                if ctx.choose("%s_has_%s" % (tag, k), 2)}

    a, b = make("a"), make("b")
    if nested:
        da, db = {"in": a}, {"in": b}
        got = U.find_diff_of_dicts(da, db)["in"]
        three = U.find_diff_of_dicts_with_diff_keys(da, db)[1]["in"]
    else:
        got = U.find_diff_of_dicts(a, b)
        three = U.find_diff_of_dicts_with_diff_keys(a, b)
    if not a and not b:
        ctx.check("no keys", got == UN and three == UN)
        return
    ctx.check("every key", isinstance(got, dict) and set(got) == set(a) | set(b))
    for k in got:
        law(ctx, "dict value", got[k], a.get(k), b.get(k))
    ctx.check("partition of the keys", isinstance(three, list) and len(three) == 3
              and set(three[0]) == set(a) - set(b) and set(three[1]) == set(a) & set(b)
              and set(three[2]) == set(b) - set(a))
    for k, v in three[0].items():
        ctx.check_eq("value only in the first", v, a[k])
    for k, v in three[2].items():
        ctx.check_eq("value only in the second", v, b[k])
    for k, v in three[1].items():
        law(ctx, "shared value", v, a[k], b[k])


def mixed(ctx):
    """values of other kinds inside dictionaries"""
    vals = [["x"], ["y"], ["x", "y"]]
    a = {"l": ctx.pick("la", vals), "s": ctx.pick("sa", ["u", "v"]),
         "d": {"n": ctx.real("na", -10, 10)}}
    b = {"l": ctx.pick("lb", vals), "s": ctx.pick("sb", ["u", "v"]),
         "d": {"n": ctx.real("nb", -10, 10)}}
    got = U.find_diff_of_dicts(a, b)
    three = U.find_diff_of_dicts_with_diff_keys(a, b)
    for name, g, inner in (("dicts", got, got["d"]), ("keys", three[1], three[1]["d"][1])):
        ctx.check(name + ": list", (g["l"] == UN) == (set(a["l"]) == set(b["l"])))
        if g["l"] != UN:
            ctx.check(name + ": list parts", [set(z) for z in g["l"]] == [
                set(a["l"]) - set(b["l"]), set(a["l"]) & set(b["l"]), set(b["l"]) - set(a["l"])])
        ctx.check(name + ": text", g["s"] == (UN if a["s"] == b["s"] else [a["s"], b["s"]]))
        law(ctx, name + ": nested number", inner["n"], a["d"]["n"], b["d"]["n"])


def one_sided(ctx, nested=False):
    """empty and missing values under keys of one side only"""
    vals = [None, [], "", 0, False, {}, ["x"], 2]
    a = {"s": 1, "p": ctx.pick("p", vals)}
    b = {"s": 1, "q": ctx.pick("q", vals)}
    if nested:
        three = U.find_diff_of_dicts_with_diff_keys({"in": a}, {"in": b})[1]["in"]
        got = U.find_diff_of_dicts({"in": a}, {"in": b})["in"]
    else:
        three = U.find_diff_of_dicts_with_diff_keys(a, b)
        got = U.find_diff_of_dicts(a, b)
    ctx.check("only in the first", three[0] == {"p": a["p"]} and type(three[0]["p"]) is type(a["p"]))
    ctx.check("only in the second", three[2] == {"q": b["q"]} and type(three[2]["q"]) is type(b["q"]))
    ctx.check("shared", three[1] == {"s": UN})
    ctx.check("pair of the second", got["q"] == [None, b["q"]])
    ctx.check("every key", set(got) == {"s", "p", "q"})


MOMENTS = [None, datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 1, 2, 3, 4, 6),
           datetime.datetime(2020, 1, 1, 23, 0, 0), datetime.datetime(1999, 12, 31),
           datetime.datetime(2020, 1, 2, 3, 4, 5, 250000)]


def moments(ctx):
    """dates as they are shown"""
    a, b = ctx.pick("a", MOMENTS), ctx.pick("b", MOMENTS)
    got = U.find_diff_of_dates(a, b)
    if a == b:
        ctx.check("unchanged", got == UN)
    elif a is None or b is None:
        ctx.check("pair of dates and times", got == [
            None if x is None else x.strftime("%x %X") for x in (a, b)])
    else:
        ctx.check("signed difference", got == ("+" if a > b else "-") + str(abs(a - b)))


def undefined(ctx):
    """matrices with undefined entries"""
    vals = [float("nan"), 0.0, 1.0, -1.0]
    a = [[ctx.pick("a%d" % i, vals) for i in range(3)]]
    b = [[ctx.pick("b%d" % i, [vals[0], 0.0]) for i in range(3)]]
    got = U.find_diff_of_matrices(np.array(a), np.array(b))
    d = [x - y for x, y in zip(a[0], b[0])]
    if all(x == 0 or x != x for x in d):
        ctx.check("unchanged", isinstance(got, str) and got == UN)
    else:
        ctx.check("differences", not isinstance(got, str) and got is not None and all(
            x == y or x != x and y != y for x, y in zip(np.array(got)[0], d)))


def matrices(ctx, n, m):
    a = [[ctx.real("a%d%d" % (i, j), -10, 10) for j in range(m)] for i in range(n)]
    b = [[ctx.real("b%d%d" % (i, j), -10, 10) for j in range(m)] for i in range(n)]
    got = U.find_diff_of_matrices(ctx.array(a), ctx.array(b))
    same = ctx.all([x == y for r, s in zip(a, b) for x, y in zip(r, s)])
    if isinstance(got, str):
        ctx.check("unchanged", got == UN)
        ctx.check("unchanged only if equal", same)
    else:
        ctx.check("changed only if different", ctx.not_(same))
        ctx.check("shape", np.shape(got) == (n, m))
        for i in range(n):
            for j in range(m):
                ctx.check_eq("entry", got[i][j], a[i][j] - b[i][j])
    ctx.check("other shape", U.find_diff_of_matrices(
        ctx.array(a), ctx.array([r + r for r in b])) is None)
    ctx.check("missing matrix", U.find_diff_of_matrices(None, ctx.array(b)) is None)


STATS = {"min": lambda p: p.min, "max": lambda p: p.max, "sum": lambda p: p.sum,
         "mean": lambda p: p.mean, "variance": lambda p: p.variance,
         "stddev": lambda p: p.stddev}


def numeric(ctx, kind, same=False):
    """any summary state of two numeric columns"""
    def state(tag):
        c = column(kind)
        lo = ctx.real(tag + "lo", -1000, 1000)
        c.min, c.max = lo, lo + ctx.real(tag + "w", 0, 1000)
        c.sum = ctx.real(tag + "sum", -1000, 1000)
        c.match_count = c.sample_size = 3
        put(c, _biased_variance=ctx.real(tag + "var", 0, 1000))
        return c

    old = NumericStatsMixin._perform_t_test, NumericStatsMixin._calculate_psi
    NumericStatsMixin._perform_t_test = lambda *a, **k: {}
    NumericStatsMixin._calculate_psi = lambda *a, **k: 0
    try:
        a = state("a")
        b = a if same else state("b")
        got, back = a.diff(b), b.diff(a)
        for k, f in STATS.items():
            if same:
                ctx.check(k + " of the same profile", isinstance(got[k], str) and got[k] == UN)
            else:
                law(ctx, k, got[k], f(a), f(b))
                neg(ctx, k, got[k], back[k])
    finally:
        NumericStatsMixin._perform_t_test, NumericStatsMixin._calculate_psi = old


NUMS = ["min", "max", "sum", "mean", "variance", "stddev", "mode", "num_zeros"]


def side(ctx, v):
    """a reported number, nan and None being missing"""
    return None if v is None or (not isinstance(v, (str, list)) and ctx.isnan(v)) else v


def number(ctx, name, got, a, b):
    a, b = side(ctx, a), side(ctx, b)
    if a is None or b is None:
        return                                  # nan - x is nan; None by `numbers`
    law(ctx, name, got, a, b)


def sets(ctx, name, got, a, b):
    if set(a) == set(b):
        ctx.check(name + ": unchanged", isinstance(got, str) and got == UN)
    else:
        ctx.check(name + ": parts", isinstance(got, list) and len(got) == 3
                  and [set(z) for z in got]
                  == [set(a) - set(b), set(a) & set(b), set(b) - set(a)])


def word(ctx, name, got, a, b):
    ctx.check(name, got == (UN if a == b else [a, b]))


def tables(ctx, n, m, on=("int", "float", "text", "order", "category"), cells=None, swap=False,
           schema=("c0", "c1")):
    """the difference of two whole profiles against their two reports"""
    def make(tag, rows, cols):
        if cells:
            t = [[ctx.pick("%s%d%d" % (tag, i, j), cells) for j in range(len(cols))]
                 for i in range(rows)]
        else:
            t = [["nan" if ctx.choose("%sn%d%d" % (tag, i, j), 2)
                  else ctx.real("%s%d%d" % (tag, i, j), -100, 100) for j in range(len(cols))]
                 for i in range(rows)]
        return profiler(options(on=on, rows=bool(cells)), frame(ctx, t, cols, symbolic=not cells))

    cols = list(schema)
    p, q = make("p", n, cols), make("q", m, cols[::-1] if swap else cols)
    old = NumericStatsMixin._perform_t_test, NumericStatsMixin._calculate_psi
    NumericStatsMixin._perform_t_test = lambda *a, **k: {}
    NumericStatsMixin._calculate_psi = lambda *a, **k: 0
    try:
        d, same = p.diff(q), p.diff(p)
    finally:
        NumericStatsMixin._perform_t_test, NumericStatsMixin._calculate_psi = old
    rp, rq = p.report(dict(output_format="serializable")), q.report(
        dict(output_format="serializable"))
    for k in ("samples_used", "column_count", "row_count", "row_has_null_ratio",
              "row_is_null_ratio", "unique_row_ratio", "duplicate_row_count"):
        number(ctx, k, d["global_stats"][k], rp["global_stats"][k], rq["global_stats"][k])
        ctx.check(k + " of the same profile", same["global_stats"][k] == UN)
    if swap and len(set(cols)) > 1:
        ctx.check("columns only compared under the same schema", d["data_stats"] == [])
        return
    ctx.check("one entry per column", len(d["data_stats"]) == len(same["data_stats"]) == len(cols))
    for j, e in enumerate(d["data_stats"]):
        a, b, s = rp["data_stats"][j], rq["data_stats"][j], same["data_stats"][j]
        ctx.check("name of the column", e["column_name"] == cols[j])
        for k in ("sample_size", "null_count", "unique_count", "unique_ratio"):
            if k in a["statistics"] and k in b["statistics"] and ("u" != k[0] or "category" in on):
                number(ctx, k, e["statistics"][k], a["statistics"][k], b["statistics"][k])
                ctx.check(k + " of the same profile", s["statistics"][k] == UN)
        sets(ctx, "null types", e["statistics"]["null_types"], a["statistics"]["null_types"],
             b["statistics"]["null_types"])
        for k in ("categorical", "order"):
            if ("category" if k[0] == "c" else k) in on:
                word(ctx, k, e[k], a[k], b[k])
        ta, tb = a["data_type"], b["data_type"]
        if ta is None and tb is None:
            continue
        full = {"string": "text"}                # the report's other name for text
        word(ctx, "data type", e["data_type"], full.get(ta, ta), full.get(tb, tb))
        ra, rb = ({full.get(k, k): v for k, v in
                   z["statistics"].get("data_type_representation", {}).items()} for z in (a, b))
        for k, r in e["statistics"].get("data_type_representation", {}).items():
            if k in ra and k in rb:
                number(ctx, "share of type", r, ra[k], rb[k])
        if ta != tb:
            continue
        for k in NUMS:
            if k in e["statistics"] and not isinstance(a["statistics"][k], (list, str)):
                number(ctx, k, e["statistics"][k], a["statistics"][k], b["statistics"][k])
        if a["categorical"] and b["categorical"]:
            sets(ctx, "categories", e["statistics"]["categories"],
                 a["statistics"]["categories"], b["statistics"]["categories"])


HARNESSES = [
    Harness(numbers, bounds="any two numbers or missing values"),
    Harness(one_sided, quick=[dict(), dict(nested=True)], bounds="any two of 8 empty or other values"),
    Harness(moments, bounds="any two of 5 moments, or missing"),
    Harness(undefined, bounds="rows of three entries, undefined or of three numbers"),
    Harness(extremes, bounds="any two of 12 tiny, huge or infinite numbers"),
    Harness(strings, bounds="any two of six texts, booleans and None"),
    Harness(dates, bounds="any two moments within 31 years, or missing",
            stubs=["datetime -> symbolic seconds"]),
    Harness(lists, quick=[dict(n=n, m=m) for n, m in ((0, 1), (1, 1), (2, 1), (2, 2), (3, 2))]
            + [dict(n=2, m=2, kind="set")],
            thorough=[dict(n=3, m=3), dict(n=3, m=2, kind="set"), dict(n=4, m=2)],
            bounds="up to 3 (thorough 4) distinct elements per list"),
    Harness(bags, quick=[dict(n=3, m=2), dict(n=3, m=3)], thorough=[dict(n=4, m=4)],
            bounds="lists of up to 3 (4) elements, repeated or not"),
    Harness(dicts, quick=[dict(keys=["p", "q"]), dict(keys=["p"], nested=True),
                          dict(keys=["p", "q"], nested=True)],
            thorough=[dict(keys=["p", "q", "r"])],
            bounds="up to 2 (thorough 3) keys, each present or missing on either side"),
    Harness(mixed, bounds="dictionaries with a list, a text and a nested number"),
    Harness(matrices, quick=[dict(n=1, m=1), dict(n=2, m=2)], thorough=[dict(n=3, m=2)],
            bounds="up to 2x2 (thorough 3x2) matrices"),
    Harness(numeric, quick=[dict(kind=k, same=s) for k in ("float", "int", "text")
                            for s in (False, True)],
            bounds="any min, max, sum and variance of two columns with three values each"),
    Harness(tables,
            quick=[dict(n=1, m=1, on=("float",)), dict(n=2, m=1, on=("float",), schema=("c0",)),
                   dict(n=2, m=2, schema=("c0",), cells=["1", "2.5", "x", ""]),
                   dict(n=1, m=2, schema=("c0",), on=("int",), cells=["1", "x", ""]),
                   dict(n=1, m=1, cells=["1", "x", "nan"]),
                   dict(n=1, m=1, cells=["1", "x"], swap=True),
                   dict(n=1, m=1, cells=["1", "x"], schema=("c0", "c0"))],
            thorough=[dict(n=2, m=2, on=("float",), schema=("c0",)),
                      dict(n=2, m=2, on=("float", "order", "category"), schema=("c0",)),
                      dict(n=3, m=2, schema=("c0",), cells=["1", "2.5", "x", ""]),
                      dict(n=2, m=1, cells=["1", "x", "nan"])],
            bounds="profiles of up to 2 rows (thorough 3) of 1-2 columns, symbolic numbers or up "
                   "to four texts per cell, compared as a whole"),
]
