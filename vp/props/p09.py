"""P09: order of a column."""
from dataprofiler.profilers.order_column_profile import OrderColumn

from ..run import Harness

ASSUMPTIONS = [
    "numeric cells in [-1000,1000] (any values), or texts from a short list; numerals and words only in different batches of two",
    "batches that are each constant, with different values, count as constant (documented by the "
    "tests as piecewise constant)",
]
WORDS = ["a", "b", "ba", "z"]


def batch(ctx, tag, n, text):
    if text == "mix":       # one batch of numerals, another of words
        pool = ctx.pick(tag + " kind", [["1", "2"], ["b", "c"]])
        return [ctx.pick("%s_%d" % (tag, i), pool) for i in range(n)]
    if text:
        return [WORDS[ctx.choose("%s_%d" % (tag, i), len(WORDS))] for i in range(n)]
    return ctx.reals(tag, n, -1000, 1000)


def col(ctx, xs):
    c = OrderColumn("c")
    c.update(ctx.series(xs))
    return c


def nondec(ctx, xs):
    return ctx.all([a <= b for a, b in zip(xs, xs[1:])])


def noninc(ctx, xs):
    return ctx.all([a >= b for a, b in zip(xs, xs[1:])])


def const(ctx, xs):
    return ctx.all([x == xs[0] for x in xs[1:]])


def is_asc(ctx, xs):
    return ctx.all([nondec(ctx, xs), ctx.not_(const(ctx, xs))])


def is_desc(ctx, xs):
    return ctx.all([noninc(ctx, xs), ctx.not_(const(ctx, xs))])


def one(ctx, order, xs, tag=""):
    """order of a single batch"""
    ctx.check(tag + "constant", ctx.iff(order == "constant value", const(ctx, xs)))
    ctx.check(tag + "ascending", ctx.iff(order == "ascending", is_asc(ctx, xs)))
    ctx.check(tag + "descending", ctx.iff(order == "descending", is_desc(ctx, xs)))
    ctx.check(tag + "random", ctx.iff(order == "random", ctx.not_(
        ctx.any([nondec(ctx, xs), noninc(ctx, xs)]))))


def single(ctx, n, text=False):
    xs = batch(ctx, "x", n, text)
    one(ctx, col(ctx, xs).profile["order"], xs)


def two(ctx, order, xs, ys):
    """two parts: exactly as the parts put one after the other, in the better direction"""
    both = ctx.all([const(ctx, xs), const(ctx, ys)])
    ctx.check("constant parts", ctx.iff(order == "constant value", both))
    for name, f in (("ascending", nondec), ("descending", noninc)):
        fits = ctx.any([f(ctx, xs + ys), f(ctx, ys + xs)])
        ctx.check(name + " parts",
                  ctx.iff(order == name, ctx.all([fits, ctx.not_(both)])))


def sound(ctx, order, parts):
    """any history: the parts must agree"""
    ctx.check("constant only if every part is",
              ctx.iff(order == "constant value", ctx.all([const(ctx, p) for p in parts])))
    for name, f in (("ascending", nondec), ("descending", noninc)):
        ctx.check("%s only if every part is or is constant" % name,
                  ctx.implies(order == name, ctx.all([f(ctx, p) for p in parts])))
        seq = [x for p in parts for x in p]
        ctx.check("consecutive parts of a sorted sequence are %s" % name,
                  ctx.implies(ctx.all([f(ctx, seq)] + [ctx.not_(ctx.all(
                      [const(ctx, p) for p in parts]))]), order == name))


def third(ctx, before, order, parts):
    """a third part fits a sorted whole outside of, or strictly within, the range seen before"""
    if before not in ("ascending", "descending"):
        return
    f = nondec if before == "ascending" else noninc
    seen, new = parts[0] + parts[1], parts[2]
    lo, hi, l, h = ctx.min(seen), ctx.max(seen), ctx.min(new), ctx.max(new)
    fits = ctx.any([h <= lo, l >= hi, ctx.all([lo < l, h < hi])])
    ctx.check("sorted part at a free place",
              ctx.iff(order == before, ctx.all([f(ctx, new), fits])))
    ctx.check("otherwise random", order in (before, "random"))


def updates(ctx, sizes, text=False):
    c, parts = OrderColumn("c"), []
    for b, n in enumerate(sizes):
        xs = batch(ctx, "b%d" % b, n, text)
        before = c.profile["order"]
        c.update(ctx.series(xs))
        parts.append(xs)
        order = c.profile["order"]
        if before == "random":
            ctx.check("random stays random", order == "random")
        if b == 0:
            one(ctx, order, xs)
        elif b == 1:
            two(ctx, order, *parts)
        elif b == 2:
            third(ctx, before, order, parts)
        sound(ctx, order, parts)
        ctx.check_eq("sample size", c.sample_size, sum(len(p) for p in parts))


def merges(ctx, sizes, text=False, blank=False):
    cols, parts = [], []
    for b, n in enumerate(sizes):
        xs = batch(ctx, "b%d" % b, n, text)
        parts.append(xs)
        cols.append(col(ctx, xs))
    if blank:           # profiles without data change nothing
        cols = [c + OrderColumn("c") if ctx.choose("blank%d" % i, 2) else OrderColumn("c") + c
                for i, c in enumerate(cols)]
    m, r = cols[0], cols[0]
    for b, c in enumerate(cols[1:]):
        before = m.profile["order"]
        m, r = m + c, c + r
        ctx.check("merging is symmetric", m.profile["order"] == r.profile["order"])
        if b == 0:
            two(ctx, m.profile["order"], *parts[:2])
        elif b == 1:
            third(ctx, before, m.profile["order"], parts[:3])
    sound(ctx, m.profile["order"], parts)
    ctx.check_eq("sample size", m.sample_size, sum(sizes))
    e = OrderColumn("c")
    for name, z in (("right", m + e), ("left", e + m)):
        ctx.check("merging with an empty profile (%s)" % name,
                  z.profile["order"] == m.profile["order"])


def then(ctx, sizes):
    """update after merge"""
    a, b, c = [batch(ctx, "b%d" % i, n, False) for i, n in enumerate(sizes)]
    m = col(ctx, a) + col(ctx, b)
    before = m.profile["order"]
    m.update(ctx.series(c))
    sound(ctx, m.profile["order"], [a, b, c])
    third(ctx, before, m.profile["order"], [a, b, c])
    if before == "random":
        ctx.check("random stays random", m.profile["order"] == "random")


HARNESSES = [
    Harness(single, quick=[dict(n=n) for n in (1, 2, 3, 4)] + [dict(n=3, text=True)],
            thorough=[dict(n=5), dict(n=4, text=True)],
            bounds="up to 4 cells (thorough 5), any numbers or texts of a list of 4"),
    Harness(updates, quick=[dict(sizes=s) for s in ([1, 1], [2, 2], [1, 2], [2, 1], [1, 1, 1],
                                                     [1, 1, 2], [2, 1, 1], [2, 1, 2])]
            + [dict(sizes=[2, 1], text=True)]
            + [dict(sizes=s, text="mix") for s in ([2, 1], [1, 2], [2, 2])],
            thorough=[dict(sizes=s) for s in ([3, 2], [2, 3], [1, 2, 2], [2, 1, 2],
                                              [1, 1, 1, 1])]
            + [dict(sizes=[2, 2], text=True)],
            bounds="up to 3 updates (thorough 4) and 4 (5) cells"),
    Harness(merges, quick=[dict(sizes=s) for s in ([1, 1], [2, 2], [1, 2], [2, 1], [1, 1, 1],
                                                    [2, 1, 1], [2, 1, 2])]
            + [dict(sizes=[2, 1], text=True), dict(sizes=[2, 1], blank=True),
               dict(sizes=[2, 1, 1], blank=True)]
            + [dict(sizes=s, text="mix") for s in ([2, 1], [1, 2], [2, 2])],
            thorough=[dict(sizes=s) for s in ([3, 2], [2, 2, 1], [1, 1, 1, 1], [1, 1, 2])],
            bounds="up to 3 profiles (thorough 4) and 4 (5) cells"),
    Harness(then, quick=[dict(sizes=[1, 1, 1]), dict(sizes=[1, 1, 2]), dict(sizes=[2, 1, 1])],
            thorough=[dict(sizes=[2, 2, 1]), dict(sizes=[1, 2, 2])],
            bounds="two profiles merged, then an update"),
]
