"""P13: columns are matched by name across updates and merges."""
import numpy as np
import pandas as pd

from ..run import Harness
from . import sutil

ASSUMPTIONS = [
    "cells are texts of symbolic numbers; column names range over a small alphabet with "
    "repetitions and different capitalisation",
]


def opts():
    po = sutil.options(("float",))
    po.structured_options.row_statistics.unique_count.is_enabled = False
    return po


def names_of(ctx, tag, k, alphabet):
    return [ctx.pick("%s%d" % (tag, i), alphabet) for i in range(k)]


def low(n):
    return n.lower() if isinstance(n, str) else n


def mapping(a, b):
    """position in b of every column of a, None if the names do not match"""
    la, lb = [low(n) for n in a], [low(n) for n in b]
    if len(la) != len(lb) or sorted(map(str, la)) != sorted(map(str, lb)) or set(la) != set(lb):
        return None
    out = {}
    for i, n in enumerate(la):
        if la.count(n) > 1:
            if [j for j, m in enumerate(la) if m == n] != [j for j, m in enumerate(lb) if m == n]:
                return None
            out[i] = i
        else:
            out[i] = lb.index(n)
    return out


def state(p):
    out = [p.total_samples, dict(p._col_name_to_idx), p.row_has_null_count, p.row_is_null_count]
    for c in p._profile:
        f = c.profiles["data_type_profile"]._profiles["float"]
        out.append((c.name, c.sample_size, c.null_count, f.match_count, f.sum, f.min, f.max))
    return out


def check_state(ctx, a, b):
    ctx.check("same global state", a[:4] == b[:4])
    for x, y in zip(a[4:], b[4:]):
        ctx.check("same column counts", x[:4] == y[:4])
        for u, v in zip(x[4:], y[4:]):
            ctx.check_eq("same column statistics", u, v)


def check_columns(ctx, p, cols):
    """cols: per profile column the list of values (None = null)"""
    ctx.check("number of columns", len(p._profile) == len(cols))
    for c, vals in zip(p._profile, cols):
        f = c.profiles["data_type_profile"]._profiles["float"]
        xs = [v for v in vals if v is not None]
        ctx.check_eq("sample size", c.sample_size, len(vals))
        ctx.check_eq("nulls", c.null_count, len(vals) - len(xs))
        ctx.check_eq("matches", f.match_count, len(xs))
        if xs:
            ctx.check_eq("sum", f.sum, ctx.sum(xs))
            ctx.check_eq("min", f.min, ctx.min(xs))
            ctx.check_eq("max", f.max, ctx.max(xs))


def table(ctx, tag, rows, k, nulls=False):
    out = []
    for r in range(rows):
        row = []
        for j in range(k):
            if nulls and ctx.choose("%sn%d%d" % (tag, r, j), 2):
                row.append(None)
            else:
                row.append(ctx.real("%s%d_%d" % (tag, r, j), 1, 1000))
        out.append(row)
    return out


def frame(ctx, rows, names, start=0):
    def cell(v):
        return "nan" if v is None else v if ctx.symbolic else repr(float(v))
    return sutil.frame(ctx, [[cell(v) for v in r] for r in rows], names, start, symbolic=True)


def arrange(ctx, k, alphabet, perm, k2=None):
    if perm:
        a = list(alphabet)[:k]
        rest, b = list(a), []
        for i in range(k):
            b.append(rest.pop(ctx.choose("p%d" % i, len(rest))))
        return a, b
    return names_of(ctx, "a", k, alphabet), names_of(ctx, "b", k2 or k, alphabet)


def update(ctx, k, alphabet, perm=False, rows=(1, 1), k2=None, nulls=False):
    a, b = arrange(ctx, k, alphabet, perm, k2)
    m = mapping(b, a)
    t1, t2 = table(ctx, "x", rows[0], k), table(ctx, "y", rows[1], len(b), nulls)
    p = sutil.profiler(opts(), frame(ctx, t1, a))
    if m is None:
        before = state(p)
        try:
            p.update_profile(frame(ctx, t2, b, rows[0]))
        except ValueError:
            check_state(ctx, before, state(p))
            return
        ctx.fail("data with other columns is rejected")
        return
    p.update_profile(frame(ctx, t2, b, rows[0]))
    cols = [[r[i] for r in t1] for i in range(k)]
    for j in range(k):
        cols[m[j]] += [r[j] for r in t2]
    check_columns(ctx, p, cols)
    ctx.check("names keep their place", [low(c.name) for c in p._profile] == [low(n) for n in a])
    ctx.check_eq("row count", p.total_samples, rows[0] + rows[1])


def merge(ctx, k, alphabet, perm=False, rows=(1, 1), k2=None, nulls=False, again=False):
    a, b = arrange(ctx, k, alphabet, perm, k2)
    m = mapping(b, a)
    t1, t2 = table(ctx, "x", rows[0], k), table(ctx, "y", rows[1], len(b), nulls)
    p = sutil.profiler(opts(), frame(ctx, t1, a))
    q = sutil.profiler(opts(), frame(ctx, t2, b))
    before = state(p), state(q)
    if m is None or any(type(x) is str and x != y for x, y in zip(
            [a[m[j]] for j in range(k)], b)):
        # columns of different capitalisation may also be refused
        try:
            s = p + q
        except ValueError:
            check_state(ctx, before[0], state(p))
            check_state(ctx, before[1], state(q))
            return
        if m is None:
            ctx.fail("profiles of other columns are rejected")
            return
    else:
        s = p + q
    cols = [[r[i] for r in t1] for i in range(k)]
    for j in range(k):
        cols[m[j]] += [r[j] for r in t2]
    check_columns(ctx, s, cols)
    check_state(ctx, before[0], state(p))
    check_state(ctx, before[1], state(q))
    if not again:
        return
    # the merged profile follows the first operand's column order when updated
    t3 = table(ctx, "z", 1, k)
    s.update_profile(frame(ctx, t3, b, 10))
    for j in range(k):
        cols[m[j]] += [r[j] for r in t3]
    check_columns(ctx, s, cols)


def rows(ctx, k, merge, hashing="full"):
    """rows are the same if their cells agree name by name, whatever the column order"""
    a = ["a", "b", "c"][:k]
    _, b = arrange(ctx, k, a, True)
    r1 = [ctx.pick("u%d" % i, ["1", "2"]) for i in range(k)]
    r2 = [ctx.pick("v%d" % i, ["1", "2"]) for i in range(k)]
    d1 = pd.DataFrame([r1], columns=a, dtype=object)
    d2 = pd.DataFrame([r2], columns=a, dtype=object)[b]
    p = sutil.profiler(sutil.options(("text",), hashing=hashing), d1)
    if merge:
        p = p + sutil.profiler(sutil.options(("text",), hashing=hashing), d2)
    else:
        p.update_profile(d2)
    # few rows: the HyperLogLog estimate is within half a row
    ctx.check("unique rows", abs(p._get_unique_row_ratio() - (0.5 if r1 == r2 else 1)) < 0.25)


def column_nulls(ctx, k):
    """null values given for one column apply to that column"""
    a = ["a", "b", "c"][:k]
    _, b = arrange(ctx, k, a, True)
    col = ctx.choose("col", k)
    po = sutil.options(("text",))
    po.structured_options.column_null_values = {col: {"x": 0}}
    cells = [[ctx.pick("u%d%d" % (r, i), ["x", "y"]) for i in range(k)] for r in range(2)]
    p = sutil.profiler(po, pd.DataFrame([cells[0]], columns=a, dtype=object))
    p.update_profile(pd.DataFrame([cells[1]], columns=a, index=[1], dtype=object)[b])
    for i, c in enumerate(p._profile):
        want = sum(r[i] == "x" for r in cells) if i == col else 0
        ctx.check_eq("nulls of the column", c.null_count, want)


def equal_names(ctx, k, merge):
    """columns of equal names at any positions"""
    a, b = names_of(ctx, "a", k, "ab"), names_of(ctx, "b", k, "ab")
    m = mapping(b, a)
    t = ["x%d" % i for i in range(k)], ["y%d" % i for i in range(k)]
    d1, d2 = (pd.DataFrame([r], columns=c, index=[i], dtype=object)
              for i, (r, c) in enumerate(zip(t, (a, b))))
    p = sutil.profiler(sutil.options(("category",)), d1)
    q = sutil.profiler(sutil.options(("category",)), d2) if merge else None

    def cells(p):
        return [sorted(c.profiles["data_stats_profile"]._profiles["category"]._categories)
                for c in p._profile]
    try:
        if merge:
            s = p + q
        else:
            p.update_profile(d2)
            s = p
    except ValueError:
        ctx.check("matching columns are accepted", m is None)
        ctx.check("profile unchanged", cells(p) == [[x] for x in t[0]] and p.total_samples == 1)
        return
    ctx.check("data with other columns is rejected", m is not None)
    if m is not None:
        want = [[x] for x in t[0]]
        for j in range(k):
            want[m[j]].append(t[1][j])
        ctx.check("values are with the columns of their names", cells(s) == want)


def kinds_of_labels(ctx, merge):
    """columns numbered 0 and 1, whatever kind of index holds the numbers"""
    def labels(tag):
        kind = ctx.choose(tag + " kind", 5)
        nums = [[0, 1], [1, 0]][ctx.choose(tag + " order", 2)]
        ctx.assume(kind != 0 or nums == [0, 1])
        made = [lambda: pd.RangeIndex(2), lambda: pd.Index(nums, dtype="int64"),
                lambda: pd.Index([np.int32(n) for n in nums], dtype=object),
                lambda: pd.Index(list(nums), dtype=object),
                lambda: pd.Index([str(n) for n in nums], dtype=object)][kind]()
        return made, nums, kind == 4

    (i1, n1, text1), (i2, n2, text2) = labels("first"), labels("second")
    cells = [["3", "50"], ["700", "9000"]]
    d1, d2 = (pd.DataFrame([r], columns=i, index=[j], dtype=object)
              for j, (r, i) in enumerate(zip(cells, (i1, i2))))
    p = sutil.profiler(opts(), d1)
    try:
        if merge:
            p = p + sutil.profiler(opts(), d2)
        else:
            p.update_profile(d2)
    except ValueError:
        ctx.check("equal numbers match", text1 != text2)
        return
    ctx.check("texts and numbers do not match", text1 == text2)
    check_columns(ctx, p, [[float(cells[0][j]), float(cells[1][n2.index(n)])]
                           for j, n in enumerate(n1)])


HARNESSES = [
    Harness(kinds_of_labels, quick=[dict(merge=m) for m in (False, True)],
            bounds="two columns with numbers, numbers as texts, in 5 kinds of indices"),
    Harness(equal_names, quick=[dict(k=3, merge=m) for m in (False, True)],
            thorough=[dict(k=4, merge=m) for m in (False, True)],
            bounds="3 (thorough 4) columns with two different names, one row per part"),
    Harness(update, quick=[dict(k=2, alphabet=["a", "b"], rows=(1, 1)),
                           dict(k=2, alphabet=["a", "A", 0], rows=(1, 1)),
                           dict(k=2, alphabet=["a", "b"], k2=1),
                           dict(k=1, alphabet=["a", "b"], k2=2),
                           dict(k=3, alphabet="abc", perm=True),
                           dict(k=3, alphabet=["a", "B", 7], perm=True),
                           dict(k=2, alphabet="ab", perm=True, rows=(2, 2), nulls=True)],
            thorough=[dict(k=3, alphabet=["a", "b"], rows=(1, 1)),
                      dict(k=3, alphabet=["a", "A", "b"], rows=(1, 1)),
                      dict(k=4, alphabet="abcd", perm=True),
                      dict(k=3, alphabet="abc", perm=True, rows=(1, 2), nulls=True)],
            bounds="up to 3 (thorough 4) columns, every arrangement of names with duplicates and "
            "other capitalisation, up to 2 rows per batch"),
    Harness(merge, quick=[dict(k=2, alphabet=["a", "b"], rows=(1, 1)),
                          dict(k=2, alphabet=["a", "A", 0], rows=(1, 1)),
                          dict(k=2, alphabet=["a", "b"], k2=1),
                          dict(k=1, alphabet=["a", "b"], k2=2),
                          dict(k=3, alphabet="abc", perm=True),
                          dict(k=2, alphabet="ab", perm=True, again=True),
                          dict(k=2, alphabet="ab", perm=True, rows=(1, 2), nulls=True)],
            thorough=[dict(k=3, alphabet=["a", "b"], rows=(1, 1)),
                      dict(k=3, alphabet=["a", "A", "b"], rows=(1, 1)),
                      dict(k=4, alphabet="abcd", perm=True),
                      dict(k=3, alphabet="abc", perm=True, again=True)],
            bounds="as for updates; both operands unchanged; merged profile updated again"),
    Harness(rows, quick=[dict(k=k, merge=m) for k in (2, 3) for m in (False, True)] + [
        dict(k=2, merge=m, hashing="hll") for m in (False, True)],
            bounds="2 and 3 columns, one row per part"),
    Harness(column_nulls, quick=[dict(k=2)], thorough=[dict(k=3)],
            bounds="2 (thorough 3) columns"),
]
