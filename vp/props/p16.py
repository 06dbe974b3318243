"""P16: chi-squared test, t-test and population stability index follow their formulas."""
import itertools

import numpy as np
import scipy.stats
import z3

from .. import engine as E
from dataprofiler.profilers import numerical_column_stats as NS
from dataprofiler.profilers import profiler_utils as U
from dataprofiler.profilers.categorical_column_profile import CategoricalColumn

from ..run import Harness
from . import sutil
from .util import column

ASSUMPTIONS = [
    "distribution functions of scipy and the logarithm are uninterpreted; statistic, degrees of "
    "freedom and the arguments given to them are checked",
]


class Dist:
    """uninterpreted distribution family: F(parameter, x)"""

    def __init__(self, name, df=None):
        self.name, self.df = name, df

    def __call__(self, df):
        return Dist(self.name, df)

    def cdf(self, x, df=None):
        f = z3.Function("cdf_" + self.name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        df = self.df if df is None else df
        E.ENG.model = None
        return E.SymNum(f(E.to_term(df), z3.simplify(E.to_term(x))))

    def sf(self, x, df=None):
        return 1 - self.cdf(x, df)


class Scipy:
    class stats:
        chi2 = Dist("chi2")
        t = Dist("t")


class stubs:
    """scipy's distributions become uninterpreted functions (symbolic runs only)"""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        if self.on:
            self.old = [(m, m.scipy) for m in (U, NS) if hasattr(m, "scipy")]
            for m, _ in self.old:
                m.scipy = Scipy
        return Scipy.stats if self.on else scipy.stats

    def __exit__(self, *a):
        if self.on:
            for m, o in self.old:
                m.scipy = o


def chi2_of(ctx, a, b):
    na, nb = ctx.sum(list(a.values())), ctx.sum(list(b.values()))
    r = 0
    for c in set(a) | set(b):
        col = a.get(c, 0) + b.get(c, 0)
        for o, n in ((a.get(c, 0), na), (b.get(c, 0), nb)):
            e = n * col / (na + nb)
            r = r + (o - e) * (o - e) / e
    return r


def chi2(ctx, cats, missing=False):
    """any counts; with `missing` any category may be absent on either side"""
    def side(tag):
        return {c: ctx.int(tag + c, 0, 1000, relaxed=True) for c in cats
                if not missing or ctx.choose(tag + "_" + c, 2) == 0}
    a, b = side("a"), side("b")
    na, nb = ctx.sum(list(a.values())), ctx.sum(list(b.values()))
    names = set(a) | set(b)
    with stubs(ctx) as st:
        got = U.perform_chi_squared_test_for_homogeneity(dict(a), na, dict(b), nb)
        back = U.perform_chi_squared_test_for_homogeneity(dict(b), nb, dict(a), na)
        if len(names) <= 1:
            for k in ("chi2-statistic", "deg_of_free", "p-value"):
                ctx.check("no test of a single category", got[k] is None and back[k] is None)
            return
        ctx.check_eq("degrees of freedom", got["deg_of_free"], len(names) - 1)
        zero = ctx.any([na == 0, nb == 0] + [a.get(c, 0) + b.get(c, 0) == 0 for c in names])
        if bool(zero):
            for r in (got, back):
                ctx.check("infinite statistic", not E.is_sym(r["chi2-statistic"]) and
                          r["chi2-statistic"] == np.inf)
                ctx.check_eq("p-value 0", r["p-value"], 0)
            return
        want = chi2_of(ctx, a, b)
        ctx.check_eq("statistic", got["chi2-statistic"], want)
        ctx.check_eq("operand order", back["chi2-statistic"], want)
        ctx.check_eq("p-value", got["p-value"],
                     st.chi2(len(names) - 1).sf(got["chi2-statistic"]))


def chi2_same(ctx, k, m):
    """proportional counts have statistic 0"""
    a = {"c%d" % i: ctx.int("a%d" % i, 1, 1000, relaxed=True) for i in range(k)}
    b = {c: v * m for c, v in a.items()}
    with stubs(ctx):
        got = U.perform_chi_squared_test_for_homogeneity(
            a, ctx.sum(list(a.values())), b, ctx.sum(list(b.values())))
    ctx.check_eq("statistic", got["chi2-statistic"], 0)


def chi2_columns(ctx, n, m):
    """the test in a diff of categorical columns uses the columns' own counts"""
    a = [ctx.pick("a%d" % i, ["x", "y", "z"][:2 + (n > 3)]) for i in range(n)]
    b = [ctx.pick("b%d" % i, ["x", "y", "w"]) for i in range(m)]
    p, q = CategoricalColumn("c"), CategoricalColumn("c")
    p.update(ctx.series(a))
    q.update(ctx.series(b))
    ca = {x: a.count(x) for x in a}
    cb = {x: b.count(x) for x in b}
    diff = p.diff(q)["statistics"]
    got = diff["chi2-test"]
    names = sorted(set(a) | set(b))
    ctx.check_eq("psi", diff["psi"], psi_formula(
        ctx, [ca.get(x, 0) for x in names], n, [cb.get(x, 0) for x in names], m))
    if len(set(a) | set(b)) <= 1:
        ctx.check("no test of a single category", got["chi2-statistic"] is None)
        return
    ctx.check_eq("statistic", got["chi2-statistic"], chi2_of(ctx, ca, cb))
    ctx.check_eq("degrees of freedom", got["deg_of_free"], len(set(a) | set(b)) - 1)
    ctx.check_eq("p-value", got["p-value"], scipy.stats.chi2.sf(
        float(got["chi2-statistic"]), got["deg_of_free"]))


def chi2_matrix(ctx, rows, merge=False, null=False, other=None, flip=False, last=1):
    """the matrix of p-values is symmetric and holds the pairwise tests

    other: position of a further column with too many values to be categorical; flip: the columns
    of the second part are in another order; last: rows of the second part
    """
    values = ["x", "y", ""][:2 + null]
    names = ["a", "b", "c"]
    width = 3 if other is None else 2
    cells = [[ctx.pick("c%d%d" % (r, j), values) for j in range(width)] for r in range(rows)]
    if other is not None:
        for i, r in enumerate(cells):
            r.insert(other, "id%d" % i)

    def table(rs, start, turn=False):
        d = sutil.frame(ctx, rs, names, start)
        return d[names[::-1]] if turn else d

    def prof(rs, start, turn=False):
        return sutil.profiler(sutil.options(("category", "text"), chi2=True),
                              table(rs, start, turn))
    cut = rows - last
    old = CategoricalColumn._MAXIMUM_UNIQUE_VALUES_TO_CLASSIFY_AS_CATEGORICAL
    if other is not None:
        CategoricalColumn._MAXIMUM_UNIQUE_VALUES_TO_CLASSIFY_AS_CATEGORICAL = 2
    try:
        if merge:
            p = prof(cells[:cut], 0) + prof(cells[cut:], cut, flip)
        else:
            p = prof(cells[:cut], 0)
            p.update_profile(table(cells[cut:], cut, flip))
        match = [c.profiles["data_stats_profile"]._profiles["category"].is_match
                 for c in p._profile]
    finally:
        CategoricalColumn._MAXIMUM_UNIQUE_VALUES_TO_CLASSIFY_AS_CATEGORICAL = old
    m = p.chi2_matrix
    if other is not None and rows > 2:
        ctx.check("not categorical", match == [j != other for j in range(3)])
    cols = [[r[j] for r in cells if r[j]] for j in range(3)]
    for i in range(3):
        for j in range(3):
            if not (match[i] and match[j]):
                ctx.check("no test of other columns", ctx.isnan(m[i][j]))
            elif i == j:
                ctx.check_eq("diagonal", m[i][j], 1)
            else:
                a = {x: cols[i].count(x) for x in cols[i]}
                b = {x: cols[j].count(x) for x in cols[j]}
                n = len(set(a) | set(b))
                if n <= 1:
                    ctx.check("no test", m[i][j] is None or ctx.isnan(m[i][j]))
                elif not a or not b:
                    ctx.check_eq("p-value", m[i][j], 0)
                else:
                    ctx.check_eq("p-value", m[i][j], float(scipy.stats.chi2.sf(
                        float(chi2_of(ctx, a, b)), n - 1)))


def t_test(ctx, same=False):
    """any means, variances and counts"""
    n1, n2 = ctx.int("n1", 0, 1000, relaxed=True), ctx.int("n2", 0, 1000, relaxed=True)
    m1, m2 = ctx.real("m1", -100, 100), ctx.real("m2", -100, 100)
    v1, v2 = ctx.real("v1", 0, 100), ctx.real("v2", 0, 100)
    for v in (v1, v2):
        ctx.assume(ctx.any([v == 0, v >= 0.001]))
    if same:
        m2, v2, n2 = m1, v1, n1
    f = NS.NumericStatsMixin._perform_t_test
    with stubs(ctx) as st:
        got = f(m1, v1, n1, m2, v2, n2)
        back = f(m2, v2, n2, m1, v1, n1)
        undef = ctx.any([n1 <= 1, n2 <= 1, ctx.all([v1 == 0, v2 == 0])])
        if bool(undef):
            for r in (got, back):
                ctx.check("undefined", r["t-statistic"] is None and all(
                    r[k][x] is None for k in ("conservative", "welch")
                    for x in ("deg_of_free", "p-value")))
            return
        for r in (got, back):
            ctx.check("defined", r["t-statistic"] is not None and all(
                r[k][x] is not None for k in ("conservative", "welch")
                for x in ("deg_of_free", "p-value")))
        s = v1 / n1 + v2 / n2
        t = got["t-statistic"]
        ctx.check_eq("statistic^2", t * t * s, (m1 - m2) * (m1 - m2))
        ctx.check("sign", ctx.all([ctx.implies(m1 > m2, t > 0), ctx.implies(m1 < m2, t < 0)]))
        ctx.check_eq("swapped sign", back["t-statistic"], -t)
        dof = ctx.min([n1, n2]) - 1
        ctx.check_eq("conservative dof", got["conservative"]["deg_of_free"], dof)
        a, b = v1 / n1, v2 / n2
        welch = s * s / (a * a / (n1 - 1) + b * b / (n2 - 1))
        ctx.check_eq("welch dof", got["welch"]["deg_of_free"], welch)
        ctx.check_eq("swapped dof", back["welch"]["deg_of_free"], welch)
        at = abs(t)
        for k in ("conservative", "welch"):
            ctx.check_eq(k + " p-value", got[k]["p-value"],
                         2 * st.t(got[k]["deg_of_free"]).sf(at))
        if same:
            ctx.check_eq("equal samples", t, 0)


def t_test_missing(ctx):
    f = NS.NumericStatsMixin._perform_t_test
    n = [ctx.choose("n%d" % i, 3) for i in range(2)]
    v = [ctx.pick("v%d" % i, [1.0, float("nan")]) for i in range(2)]
    m = [ctx.pick("m%d" % i, [1.0, float("nan")]) for i in range(2)]
    if any(x <= 1 for x in n) or any(x != x for x in v + m):
        r = f(m[0], v[0], n[0], m[1], v[1], n[1])
        ctx.check("undefined", r["t-statistic"] is None and r["welch"]["p-value"] is None)


def hist(edges, counts):
    return {"bin_edges": np.asarray(edges), "bin_counts": np.asarray(counts)}


def psi_formula(ctx, p, n, q, m):
    r = 0
    for a, b in zip(p, q):
        pa, qb = a / n, b / m
        if bool(pa == 0) or bool(qb == 0):
            continue
        x = qb / pa
        r = r + (qb - pa) * (np.log(float(x)) if not E.is_sym(x) else x.log())
    return r


def psi_aligned(ctx, kind, free):
    """ten bins over the same range: the formula over shares of the counts"""
    c = column(kind)
    rest = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10][free:]

    def side(tag, tot):
        xs = ctx.ints(tag, free - 1, 0, 50, relaxed=True)
        last = tot - ctx.sum(xs)
        ctx.assume(last >= 0)
        return xs + [last] + rest, tot + sum(rest)
    (a, n), (b, m) = side("a", 20), side("b", 30)
    e = [float(i) for i in range(11)]
    ctx_arr = ctx.array
    h1 = {"bin_edges": np.array(e), "bin_counts": ctx_arr(a)}
    h2 = {"bin_edges": np.array(e), "bin_counts": ctx_arr(b)}
    got = c._calculate_psi(n, h1, m, h2)
    ctx.check_eq("psi", got, psi_formula(ctx, a, n, b, m))
    ctx.check_eq("equal histograms", c._calculate_psi(n, h1, n, {
        "bin_edges": np.array(e), "bin_counts": ctx_arr(a)}), 0)


def psi_bins(ctx, kind, k1, k2, same_edges=False):
    """other bin counts: both histograms are compared over ten common bins"""
    c = column(kind)
    lo1, w1 = ctx.pick("lo1", [0.0, 1.0]), ctx.pick("w1", [4.0, 10.0])
    lo2, w2 = (lo1, w1) if same_edges else (ctx.pick("lo2", [0.0, 2.0]), ctx.pick("w2", [4.0, 9.0]))
    a = [ctx.choose("a%d" % i, 3) if i < 3 else 1 for i in range(k1)]
    b = [ctx.choose("b%d" % i, 3) if i < 3 else 1 for i in range(k2)]
    n, m = sum(a), sum(b)
    ctx.assume(n > 0 and m > 0)
    e1 = np.array([lo1 + w1 * i / k1 for i in range(k1 + 1)])
    e2 = np.array([lo2 + w2 * i / k2 for i in range(k2 + 1)])
    lo, hi = min(e1[0], e2[0]), max(e1[-1], e2[-1])

    def ten(e, h):
        r, _ = c._regenerate_histogram(
            entity_count_per_bin=np.array(h), bin_edges=e, suggested_bin_count=10,
            is_float_histogram=kind == "float", options={"min_edge": lo, "max_edge": hi})
        return r["bin_counts"]
    h1, h2 = hist(e1, a), hist(e2, b)
    got = c._calculate_psi(n, h1, m, h2)
    ctx.check_eq("psi", got, psi_formula(ctx, list(ten(e1, a)), n, list(ten(e2, b)), m))
    ctx.check_eq("psi of equal histograms", c._calculate_psi(n, hist(e1, a), n, hist(e1, a)), 0)
    ctx.check("counts left unchanged", list(h1["bin_counts"]) == a and
              list(h2["bin_counts"]) == b)


HARNESSES = [
    Harness(chi2, quick=[dict(cats="x"), dict(cats="xy"), dict(cats="xyz"),
                         dict(cats="xy", missing=True)],
            thorough=[dict(cats="wxyz"), dict(cats="xyz", missing=True)],
            stubs=["scipy.stats.chi2 -> uninterpreted distribution function"],
            bounds="up to 3 (thorough 4) categories, any counts up to 1000"),
    Harness(chi2_same, quick=[dict(k=2, m=1), dict(k=3, m=2)], thorough=[dict(k=4, m=3)],
            stubs=["scipy.stats.chi2 -> uninterpreted distribution function"],
            bounds="up to 3 (thorough 4) categories with proportional counts"),
    Harness(chi2_columns, quick=[dict(n=2, m=2), dict(n=3, m=2)], thorough=[dict(n=4, m=3)],
            bounds="columns of up to 3 (thorough 4) cells over 2-3 values"),
    Harness(chi2_matrix, quick=[dict(rows=2), dict(rows=2, merge=True, null=True),
                                dict(rows=2, null=True), dict(rows=3, other=0),
                                dict(rows=3, other=1, merge=True), dict(rows=2, flip=True),
                                dict(rows=2, flip=True, merge=True, null=True)],
            thorough=[dict(rows=3), dict(rows=3, merge=True), dict(rows=3, other=1, null=True),
                      dict(rows=3, other=0, merge=True, last=2, flip=True)],
            bounds="3 columns of 2 (thorough 3) cells or nulls, updated or merged, also in another "
                   "order of columns; a column with too many values"),
    Harness(t_test, quick=[dict(), dict(same=True)],
            stubs=["scipy.stats.t -> uninterpreted distribution function"],
            bounds="any counts up to 1000, any mean, variance 0 or at least 0.001"),
    Harness(t_test_missing, bounds="missing moments and too few samples"),
    Harness(psi_aligned, quick=[dict(kind="float", free=2), dict(kind="int", free=3)],
            thorough=[dict(kind="text", free=4)], stubs=["logarithm uninterpreted"],
            bounds="ten bins, of which 3 (thorough 4) hold any counts"),
    Harness(psi_bins, quick=[dict(kind="float", k1=2, k2=2), dict(kind="float", k1=1, k2=3),
                             dict(kind="float", k1=10, k2=1), dict(kind="float", k1=1, k2=10),
                             dict(kind="float", k1=2, k2=2, same_edges=True),
                             dict(kind="float", k1=12, k2=12, same_edges=True)],
            thorough=[dict(kind="float", k1=3, k2=3), dict(kind="int", k1=3, k2=2),
                      dict(kind="text", k1=4, k2=3), dict(kind="float", k1=10, k2=10),
                      dict(kind="float", k1=3, k2=3, same_edges=True)],
            bounds="up to 12 bins, of which 3 hold counts 0..2, on overlapping ranges"),
]
