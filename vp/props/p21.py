"""P21: column data labels aggregate the labeler's confidences."""
from fractions import Fraction

import numpy as np
import pandas as pd

from dataprofiler.profilers.data_labeler_column_profile import DataLabelerColumn
from dataprofiler.profilers.profiler_options import DataLabelerOptions

from ..run import Harness
from .util import put

ASSUMPTIONS = [
    "confidences are any numbers in [0,1], those of one value pairwise different and apart from "
    "the voting threshold",
    "shares of votes that differ by exactly the reporting threshold are not judged",
]


class Model:
    requires_zero_mapping = False


class Labeler:
    """a labeler returning given confidences, looked up by cell"""

    def __init__(self, ctx, labels, zero):
        self.ctx, self.zero, self.rows = ctx, zero, {}
        self.names = (["PAD"] if zero else []) + labels
        self.model = Model()
        self.model.requires_zero_mapping = zero
        self.model.num_labels = len(self.names)
        self.seen = []

    @property
    def label_mapping(self):
        return {n: i for i, n in enumerate(self.names)}

    @property
    def reverse_label_mapping(self):
        return dict(enumerate(self.names))

    def predict(self, data, *a, **k):
        rows = []
        for cell in data:
            self.seen.append(cell)
            rows.append(([0.0] if self.zero else []) + list(self.rows[cell]))
        if self.ctx.symbolic:
            conf = np.empty((len(rows), len(self.names)), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    conf[i, j] = v
        else:
            conf = np.array(rows, dtype=float)
        return {"pred": None, "conf": conf}


def make(ctx, lab, topk=1, maxn=None):
    o = DataLabelerOptions()
    o.data_labeler_object = lab
    if maxn:
        o.max_sample_size = maxn
    c = DataLabelerColumn("c", o)
    if topk != 1:
        put(c, _top_k_voting=topk)
    return c


def conf(ctx, lab, tag, n, nl, fixed=False):
    cells = []
    for i in range(n):
        name = "%s%d" % (tag, i)
        if fixed == 2:
            # first and second place are chosen, the rest is small
            first = ctx.choose("w" + name, nl)
            second = (first + 1 + ctx.choose("s" + name, nl - 1)) % nl
            row = [0.6 if j == first else 0.3 if j == second else 0.001 * (j + 1)
                   for j in range(nl)]
        elif fixed:
            # the winner (or none above the threshold) is chosen, the rest is small
            w = ctx.choose("w" + name, nl + 1)
            row = [0.9 if j == w else 0.001 * (j + 1) for j in range(nl)]
        else:
            row = ctx.reals("p%s_" % name, nl, 0, 1)
            ctx.spread(row + [Fraction(1, 5)])
            for a in range(nl):
                ctx.assume(row[a] != (Fraction(1, 5) if ctx.symbolic else 0.2))
                for b in range(a):
                    ctx.assume(row[a] != row[b])
        lab.rows[name] = row
        cells.append(name)
    return cells


def votes(ctx, lab, cells, labels, topk):
    """votes per label (forks on the order of confidences)"""
    out = {n: 0 for n in labels}
    for c in cells:
        row = lab.rows[c]
        for j, v in enumerate(row):
            smaller = sum(1 for k, u in enumerate(row) if k != j and bool(u < v))
            rank = smaller - (len(row) - topk)
            if rank >= 0 and bool(v > (Fraction(1, 5) if ctx.symbolic else 0.2)):
                out[labels[j]] += rank + 1
    return out


def check(ctx, c, lab, cells, labels, topk, tag=""):
    n = len(cells)
    ctx.check_eq(tag + "sample size", c.sample_size, n)
    if not n:
        ctx.check(tag + "no data", c.data_label is None and c.avg_predictions is None and
                  c.label_representation is None)
        return
    avg = c.avg_predictions
    ctx.check(tag + "labels", list(avg) == labels)
    for j, name in enumerate(labels):
        ctx.check_eq(tag + "average prediction", avg[name],
                     ctx.sum([lab.rows[x][j] for x in cells]) / n)
    v = votes(ctx, lab, cells, labels, topk)
    total = sum(v.values())
    rep = c.label_representation
    ctx.check(tag + "represented labels", set(rep) == set(labels))
    for name in labels:
        ctx.check_eq(tag + "share of votes", rep[name], v[name] / max(1, total))
    got = c.data_label
    if not total:
        ctx.check(tag + "no votes", got == "could not determine")
        return
    ranked = sorted(labels, key=lambda x: -v[x])
    share = {x: Fraction(v[x], total) for x in labels}
    top = share[ranked[0]]
    if any(share[x] - top == -Fraction(1, 5) for x in labels) or top == Fraction(35, 100):
        return
    if top < Fraction(35, 100):
        ctx.check(tag + "no label found", got == "could not determine")
        return
    # labels with equal votes may be listed in any order
    close = [x for x in ranked[:3] if share[x] - top > -Fraction(1, 5)]
    names = got.split("|")
    ctx.check(tag + "reported labels",
              sorted(v[x] for x in names) == sorted(v[x] for x in close) and
              len(set(names)) == len(names) and
              all(v[names[i]] >= v[names[i + 1]] for i in range(len(names) - 1)))


def updates(ctx, nl, sizes, topk=1, zero=False, fixed=False, maxn=None):
    labels = ["L%d" % i for i in range(nl)]
    lab = Labeler(ctx, labels, zero)
    c = make(ctx, lab, topk, maxn)
    want = []
    for b, n in enumerate(sizes):
        cells = conf(ctx, lab, "abcd"[b], n, nl, fixed)
        c.update(pd.Series(cells, dtype=object))
        new = lab.seen[len(want):]
        ctx.check("labelled values are distinct values of the batch",
                  len(set(new)) == len(new) == min(n, maxn or n) and set(new) <= set(cells))
        want += new
    check(ctx, c, lab, want, labels, topk)


def merges(ctx, nl, sizes, topk=1, zero=False, fixed=False, after=0):
    labels = ["L%d" % i for i in range(nl)]
    lab = Labeler(ctx, labels, zero)
    parts = []
    for b, n in enumerate(sizes):
        c = make(ctx, lab, topk)
        cells = conf(ctx, lab, "abcd"[b], n, nl, fixed)
        c.update(pd.Series(cells, dtype=object))
        parts.append((c, cells))
    m, want = parts[0][0], list(parts[0][1])
    for c, cells in parts[1:]:
        m = m + c
        want += cells
    if after:
        cells = conf(ctx, lab, "z", after, nl, fixed)
        m.update(pd.Series(cells, dtype=object))
        want += cells
    check(ctx, m, lab, want, labels, topk)
    for c, cells in parts:
        check(ctx, c, lab, cells, labels, topk, "operand: ")


def tallies(ctx, ranges, merge=False, maxn=None):
    """any numbers of values voting for each label"""
    labels = ["L%d" % i for i in range(len(ranges))]
    lab = Labeler(ctx, labels, False)
    cells = []
    for j, (lo, hi) in enumerate(ranges):
        for i in range(lo + ctx.choose("n%d" % j, hi - lo + 1)):
            name = "%s_%d" % (labels[j], i)
            lab.rows[name] = [0.9 if k == j else 0.001 * (k + 1) for k in range(len(labels))]
            cells.append(name)
    cut = len(cells) // 2
    a = make(ctx, lab)
    if merge:
        b = make(ctx, lab)
        a.update(pd.Series(cells[:cut], dtype=object))
        b.update(pd.Series(cells[cut:], dtype=object))
        a = a + b
    else:
        a.update(pd.Series(cells, dtype=object))
    check(ctx, a, lab, cells, labels, 1)


HARNESSES = [
    Harness(tallies, quick=[dict(ranges=[[2, 3], [5, 6], [3, 3], [2, 3]]),
                            dict(ranges=[[3, 3], [2, 3], [3, 3], [5, 6]], merge=True),
                            dict(ranges=[[0, 2], [0, 2], [1, 2], [0, 1], [0, 1]])],
            thorough=[dict(ranges=[[1, 4], [3, 7], [1, 4], [1, 4]], merge=True),
                      dict(ranges=[[0, 3]] * 5)],
            bounds="4 and 5 labels with up to 6 votes each"),
    Harness(updates, quick=[dict(nl=2, sizes=[2]), dict(nl=2, sizes=[1, 1]), dict(nl=3, sizes=[1]),
                            dict(nl=2, sizes=[2], zero=True), dict(nl=3, sizes=[1], topk=2),
                            dict(nl=2, sizes=[1, 0, 1], topk=2), dict(nl=2, sizes=[3], maxn=2),
                            dict(nl=2, sizes=[3, 3], maxn=2, fixed=True),
                            dict(nl=3, sizes=[3], topk=2, fixed=2),
                            dict(nl=2, sizes=[4, 3], topk=2, fixed=2),
                            dict(nl=4, sizes=[4], fixed=True), dict(nl=3, sizes=[2, 2], fixed=True)],
            thorough=[dict(nl=3, sizes=[1, 1]), dict(nl=3, sizes=[2], topk=2),
                      dict(nl=2, sizes=[2, 2]), dict(nl=3, sizes=[1, 1], zero=True),
                      dict(nl=4, sizes=[5], fixed=True), dict(nl=3, sizes=[3, 3], fixed=True)],
            bounds="2-4 labels, up to 4 values in up to 3 batches (thorough 6 values)",
            stubs=["the labeler: any confidence matrix"]),
    Harness(merges, quick=[dict(nl=2, sizes=[1, 1]), dict(nl=2, sizes=[0, 1]),
                           dict(nl=2, sizes=[1, 0]), dict(nl=2, sizes=[0, 0], after=1),
                           dict(nl=2, sizes=[1, 1], zero=True), dict(nl=2, sizes=[1, 0], after=1),
                           dict(nl=3, sizes=[1, 0], topk=2),
                           dict(nl=3, sizes=[2, 1], topk=2, fixed=2),
                           dict(nl=4, sizes=[2, 2], fixed=True),
                           dict(nl=3, sizes=[1, 1, 1], fixed=True, after=1)],
            thorough=[dict(nl=3, sizes=[1, 1]), dict(nl=2, sizes=[2, 1]),
                      dict(nl=2, sizes=[1, 2], after=1), dict(nl=3, sizes=[3, 2], fixed=True)],
            bounds="2-4 labels, up to 3 operands with 4 values in all (thorough 5)"),
]
