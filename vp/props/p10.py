"""P10: datetime columns."""
import datetime
import types
import warnings

from dataprofiler.profilers import datetime_column_profile as DC
from dataprofiler.profilers.datetime_column_profile import DateTimeColumn

from ..run import Harness

ASSUMPTIONS = [
    "the parse of a text by strptime is replaced by a lookup: every cell is invalid or a symbolic "
    "day in one of two formats (replays use real texts and the real strptime)",
    "the formats themselves are covered by a list of texts, one or more per documented format",
]
DAY0 = datetime.datetime(2001, 1, 1)
FMT = ["%Y-%m-%d", "%m/%d/%Y"]


class SymDate:
    """a point in time with a symbolic position"""

    def __init__(self, t):
        self.t = t

    def _cmp(self, o, op):
        if isinstance(o, SymDate):
            return bool(getattr(self.t, op)(o.t))
        return getattr(datetime.datetime(5000, 1, 1), op)(o) if o in (
            datetime.datetime.min, datetime.datetime.max) else NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__") if isinstance(o, SymDate) else False

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self


class Dates:
    """makes cells; in symbolic runs also replaces strptime"""

    def __init__(self, ctx):
        self.ctx, self.table = ctx, {}

    def cell(self, tag):
        """(text, day or None, format)"""
        ctx = self.ctx
        kind = ctx.choose(tag + "_kind", 3)
        if kind == 2:
            return "no date", None, None
        t = ctx.int(tag + "_day", 0, 9000)
        if ctx.symbolic:
            text = "<%s>" % tag
            self.table[text] = (t, FMT[kind])
        else:
            text = (DAY0 + datetime.timedelta(days=int(t))).strftime(FMT[kind])
        return text, t, FMT[kind]

    def __enter__(self):
        if not self.ctx.symbolic:
            return self
        table = self.table

        class DT(datetime.datetime):
            @staticmethod
            def strptime(text, fmt):
                hit = table.get(text)
                if hit is None or hit[1] != fmt:
                    raise ValueError("no match")
                return SymDate(hit[0])

        self.old = DC.datetime
        DC.datetime = types.SimpleNamespace(
            **{k: getattr(datetime, k) for k in dir(datetime) if k[0] != "_"})
        DC.datetime.datetime = DT
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            DC.datetime = self.old
        return False

    def batch(self, tag, n):
        return [self.cell("%s_%d" % (tag, i)) for i in range(n)]


def ser(ctx, cells):
    return ctx.series([c[0] for c in cells])


def check_col(ctx, col, cells, tag=""):
    p = col.profile
    ok = [c for c in cells if c[1] is not None]
    ctx.check_eq(tag + "sample size", col.sample_size, len(cells))
    ctx.check_eq(tag + "match count", col.match_count, len(ok))
    ctx.check(tag + "formats", set(p["format"]) == {c[2] for c in ok}
              and len(p["format"]) == len(set(p["format"])))
    if not ok:
        ctx.check(tag + "no dates, no min", p["min"] is None and p["max"] is None)
        return
    for name, f in (("min", ctx.min), ("max", ctx.max)):
        best = f([c[1] for c in ok])
        ctx.check(tag + name, ctx.any([c[1] == best for c in ok if c[0] == p[name]]))


def updates(ctx, sizes):
    with Dates(ctx) as d:
        col, seen = DateTimeColumn("c"), []
        for b, n in enumerate(sizes):
            cells = d.batch("b%d" % b, n)
            col.update(ser(ctx, cells))
            seen += cells
            check_col(ctx, col, seen)


def merges(ctx, sizes, after=0):
    with Dates(ctx) as d:
        acc, seen = None, []
        for b, n in enumerate(sizes):
            cells = d.batch("b%d" % b, n)
            c = DateTimeColumn("c")
            c.update(ser(ctx, cells))
            acc = c if acc is None else acc + c
            seen += cells
        check_col(ctx, acc, seen, "merged ")
        if after:
            cells = d.batch("a", after)
            acc.update(ser(ctx, cells))
            check_col(ctx, acc, seen + cells, "updated after merge ")


def twice(ctx, n):
    """a column merged with itself"""
    with Dates(ctx) as d:
        col = DateTimeColumn("c")
        cells = d.batch("b", n)
        col.update(ser(ctx, cells))
        check_col(ctx, col + col, cells + cells, "merged with itself ")


# (text, moment, format)
TEXTS = [
    ("2013-03-5 15:43:30", (2013, 3, 5, 15, 43, 30), "%Y-%m-%d %H:%M:%S"),
    ("2013-03-06T15:43:30", (2013, 3, 6, 15, 43, 30), "%Y-%m-%dT%H:%M:%S"),
    ("2013-03-06T15:43:30.123456Z", (2013, 3, 6, 15, 43, 30, 123456), "%Y-%m-%dT%H:%M:%S.%fZ"),
    ("03/10/13 15:43", (2013, 3, 10, 15, 43), "%m/%d/%y %H:%M"),
    ("3/8/2013 15:43", (2013, 3, 8, 15, 43), "%m/%d/%Y %H:%M"),
    ("20130306T154330", (2013, 3, 6, 15, 43, 30), "%Y%m%dT%H%M%S"),
    ("2013-03-07", (2013, 3, 7), "%Y-%m-%d"),
    ("3/8/2013", (2013, 3, 8), "%m/%d/%Y"),
    ("03/10/13", (2013, 3, 10), "%m/%d/%y"),
    ("Mar 11, 2013", (2013, 3, 11), "%b %d, %Y"),
    ("Mar 21st, 2012", (2012, 3, 21), "%b %d, %Y"),
    ("March 9, 2013", (2013, 3, 9), "%B %d, %Y"),
    ("May 9th, 2011", (2011, 5, 9), "%B %d, %Y"),
    ("12Mar13", (2013, 3, 12), "%d%b%y"),
    ("12May13", (2013, 5, 12), "%d%b%y"),
    ("Mar-13-13", (2013, 3, 13), "%b-%d-%y"),
    ("May-13-10", (2010, 5, 13), "%b-%d-%y"),
    ("03142013", (2013, 3, 14), "%m%d%Y"),
    ("05:46:30.258509", (1900, 1, 1, 5, 46, 30, 258509), "%H:%M:%S.%f"),
    ("2013-13-07", None, None),
    ("02/30/2013", None, None),
    ("word", None, None),
]


def formats(ctx, n, merge=False, run=False):
    """texts of every documented format in every combination; run: n consecutive entries"""
    cells, col = [], DateTimeColumn("c")
    start = ctx.choose("start", len(TEXTS)) if run else 0
    step = ctx.pick("step", [1, -1, 5]) if run else 0
    for i in range(n):
        text, at, fmt = TEXTS[(start + step * i) % len(TEXTS) if run else
                              ctx.choose("text%d" % i, len(TEXTS))]
        cells.append((text, None if at is None else datetime.datetime(*at), fmt))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if merge:
            for c in cells:
                o = DateTimeColumn("c")
                o.update(ctx.series([c[0]]))
                col = col + o
        else:
            col.update(ctx.series([c[0] for c in cells]))
    ok = [c for c in cells if c[1] is not None]
    p = col.profile
    ctx.check("match count", col.match_count == len(ok))
    got = set(p["format"])
    want = {c[2] for c in ok}
    # a May date is spelled the same in the short and the long month format
    long = {"%B %d, %Y", "%b %d, %Y"}
    ctx.check("formats", got - long == want - long and bool(got & long) == bool(want & long))
    if ok:
        lo, hi = min(c[1] for c in ok), max(c[1] for c in ok)
        ctx.check("min", p["min"] in [c[0] for c in ok if c[1] == lo])
        ctx.check("max", p["max"] in [c[0] for c in ok if c[1] == hi])
    else:
        ctx.check("no dates, no min", p["min"] is None and p["max"] is None)


def sparse(ctx, sizes):
    """few dates among other texts: below one in ten (of 50 looked at) the batch has none"""
    n = sizes[ctx.choose("cells", len(sizes))]
    few = -(-min(n, 50) // 10)
    counts = sorted({0, few - 1, few, min(few + 1, n), n} if n <= 50 else
                    {0, few - 1, n - 50 + few, n})
    k = counts[ctx.choose("dates", len(counts))]
    at = 0 if ctx.choose("at the end", 2) == 0 else n - k
    y, z = ctx.choose("first year", 3), ctx.choose("second year", 3)
    years = [2001 + y, 2001 + z]
    batch = ["no date"] * n
    for i in range(k):
        batch[at + i] = "%d-02-03" % years[i % 2]
    used = years[:k] if k >= few else []
    early = ctx.choose("earlier batch", 3)
    col = DateTimeColumn("c")
    first = [[], ["2002-02-03"], ["no date"]][early]
    col.update(ctx.series(first))
    if early == 1:
        used = used + [2002]
    col.update(ctx.series(batch))
    p = col.profile
    ctx.check_eq("sample size", col.sample_size, n + len(first))
    ctx.check_eq("match count", col.match_count, (k if k >= few else 0) + (early == 1))
    ctx.check("min", p["min"] == ("%d-02-03" % min(used) if used else None))
    ctx.check("max", p["max"] == ("%d-02-03" % max(used) if used else None))
    ctx.check("formats", list(p["format"]) == (["%Y-%m-%d"] if used else []))


HARNESSES = [
    Harness(updates, quick=[dict(sizes=s) for s in ([1], [2], [3], [1, 1], [2, 1], [1, 2])],
            thorough=[dict(sizes=s) for s in ([4], [2, 2], [1, 1, 1], [3, 1])],
            stubs=["strptime -> lookup of a symbolic day"],
            bounds="up to 3 cells (thorough 4), any days, in up to 2 (3) updates"),
    Harness(twice, quick=[dict(n=2)], thorough=[dict(n=3)], bounds="columns of 2 (thorough 3) cells"),
    Harness(merges, quick=[dict(sizes=s) for s in ([1, 1], [2, 1], [1, 2])]
            + [dict(sizes=[1, 1], after=1)],
            thorough=[dict(sizes=s) for s in ([2, 2], [1, 1, 1])] + [dict(sizes=[2, 1], after=1)],
            stubs=["strptime -> lookup of a symbolic day"],
            bounds="up to 3 cells (thorough 4) in up to 2 (3) profiles, then an update"),
    Harness(formats, quick=[dict(n=1), dict(n=2), dict(n=2, merge=True),
                            dict(n=8, run=True), dict(n=22, run=True)],
            thorough=[dict(n=3, merge=True), dict(n=12, run=True), dict(n=22, run=True, merge=True)],
            stubs=["texts from a list"],
            bounds="one or two texts out of %d, or 8 or all of them in three orders" % len(TEXTS)),
    Harness(sparse, quick=[dict(sizes=[1, 9, 10, 11, 20, 21]), dict(sizes=[50, 60])],
            thorough=[dict(sizes=[2, 30, 31, 49, 51, 100])],
            bounds="batches of the listed sizes with no, just too few, just enough or only dates "
                   "at either end, after an earlier batch"),
]
