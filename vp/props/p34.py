"""P34: evaluation scores of labelers follow their definitions."""
import csv
import os
import shutil
import tempfile

import numpy as np

from dataprofiler.labelers import classification_report_utils as CR
from dataprofiler.labelers import labeler_utils as LU

from ..run import Harness

ASSUMPTIONS = [
    "confusion matrices hold any counts 0..1000; for labels of positions every combination of up "
    "to 4 positions and 4 labels is a solver choice",
]


def ratio(ctx, a, b):
    """a / b, 0 if b is 0 (forks)"""
    if bool(b == 0):
        return 0
    return a / b


def f_of(ctx, p, r, beta2):
    if bool(beta2 * p + r == 0):
        return 0
    return (1 + beta2) * p * r / (beta2 * p + r)


def scores(ctx, k, labels=None, beta=1, average=None):
    """precision, recall, f-score and support from any confusion matrix"""
    m = [[ctx.int("m%d_%d" % (i, j), 0, 1000, relaxed=True) for j in range(k)] for i in range(k)]
    if ctx.symbolic:
        arr = ctx.array([x for row in m for x in row]).reshape(k, k)
    else:
        arr = np.array(m)
    use = list(range(k)) if labels is None else labels
    tp = [m[i][i] for i in use]
    pred = [ctx.sum([m[j][i] for j in range(k)]) for i in use]
    true = [ctx.sum(m[i]) for i in use]
    mcm = CR.convert_confusion_matrix_to_MCM(arr)
    total = ctx.sum([x for row in m for x in row])
    for a, i in enumerate(use):
        ctx.check_eq("true positives", mcm[i][1][1], tp[a])
        ctx.check_eq("false negatives", mcm[i][1][0], true[a] - tp[a])
        ctx.check_eq("false positives", mcm[i][0][1], pred[a] - tp[a])
        ctx.check_eq("true negatives", mcm[i][0][0], total - true[a] - pred[a] + tp[a])
    p, r, f, s = CR.precision_recall_fscore_support(
        mcm, beta=beta, labels=None if labels is None else np.array(labels), average=average)
    b2 = beta ** 2
    if average == "micro":
        wp, wr = ratio(ctx, ctx.sum(tp), ctx.sum(pred)), ratio(ctx, ctx.sum(tp), ctx.sum(true))
        want = wp, wr, f_of(ctx, wp, wr, b2)
    else:
        ps = [ratio(ctx, t, d) for t, d in zip(tp, pred)]
        rs = [ratio(ctx, t, d) for t, d in zip(tp, true)]
        fs = [f_of(ctx, x, y, b2) for x, y in zip(ps, rs)]
        if average is None:
            for i in range(len(use)):
                ctx.check_eq("precision", p[i], ps[i])
                ctx.check_eq("recall", r[i], rs[i])
                ctx.check_eq("f-score", f[i], fs[i])
                ctx.check_eq("support", s[i], true[i])
            return
        ws = true if average == "weighted" else [1] * len(use)
        n = ctx.sum(ws)
        if bool(n == 0):
            want = 0, 0, 0
        else:
            want = [ctx.sum([w * x for w, x in zip(ws, xs)]) / n for xs in (ps, rs, fs)]
    for name, got, x in zip(("precision", "recall", "f-score"), (p, r, f), want):
        if isinstance(got, np.ndarray):
            got = got.reshape(-1)[0]
        ctx.check_eq("%s %s" % (average, name), got, x)


class Coo:
    """what scipy.sparse.coo_matrix((values, (rows, columns))).toarray() gives"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, arg, shape, dtype=None):
        self.arg, self.shape = arg, shape
        return self

    def toarray(self):
        ctx = self.ctx
        vals, (rs, cs) = self.arg
        out = [ctx.sum([ctx.ite(ctx.all([r == i, c == j]), v, 0)
                        for v, r, c in zip(vals, rs, cs)])
               for i in range(self.shape[0]) for j in range(self.shape[1])]
        return ctx.array(out).reshape(self.shape)


class Scipy:
    def __init__(self, ctx):
        self.sparse = self
        self.coo_matrix = Coo(ctx)


def evaluation(ctx, k, shape, omit=(), order=None, short=False, keep=False):
    """whole evaluation of predicted against true labels"""
    names = ["PAD", "UNKNOWN", "A", "B", "C"][:k] if k > 2 else ["A", "B"][:k]
    rev = {i: n for i, n in enumerate(names)}
    if order:
        rev = {i: rev[i] for i in order}
    rows, width = shape

    def labels(tag, n):
        if keep:
            return np.array([ctx.choose("%s_%d" % (tag, j), k) for j in range(n)])
        return ctx.array([ctx.int("%s_%d" % (tag, j), 0, k - 1) for j in range(n)])

    pred = [labels("p%d" % i, width) for i in range(rows)]
    true, full = [], []
    for i in range(rows):
        n = width
        if short and i == rows - 1:
            n = ctx.choose("length", width) + 1
        t = labels("t%d" % i, n)
        true.append(t)
        full.append(list(t) + [0] * (width - n))
    d = tempfile.mkdtemp() if keep else None
    old = LU.scipy, LU.np, CR.np
    if ctx.symbolic:
        if keep:        # nothing symbolic left in it
            LU.np = CR.np = np
        else:
            LU.scipy = Scipy(ctx)
    try:
        f1, rep = LU.evaluate_accuracy(
            pred, true, k, rev, verbose=keep, omitted_labels=tuple(omit),
            confusion_matrix_file=os.path.join(d, "sub", "m.csv") if keep else None)
        if keep:
            with open(os.path.join(d, "sub", "m.csv"), newline="") as f:
                table = list(csv.reader(f))
    finally:
        LU.scipy, LU.np, CR.np = old
        if d:
            shutil.rmtree(d)
    m = [[ctx.count([ctx.all([full[a][b] == i, pred[a][b] == j])
                     for a in range(rows) for b in range(width)])
          for j in range(k)] for i in range(k)]
    if keep:
        ctx.check("columns of the matrix", table[0][1:] == ["pred:" + n for n in names])
        ctx.check("rows of the matrix", [r[0] for r in table[1:]] == ["true:" + n for n in names])
        ctx.check("confusion matrix", [[int(x) for x in r[1:]] for r in table[1:]] == m)
    use = [i for i in range(k) if names[i] not in omit]
    ps, rs, fs, ss = [], [], [], []
    for i in use:
        tp, pr, tr = m[i][i], ctx.sum([m[j][i] for j in range(k)]), ctx.sum(m[i])
        p, r = ratio(ctx, tp, pr), ratio(ctx, tp, tr)
        ps.append(p)
        rs.append(r)
        fs.append(f_of(ctx, p, r, 1))
        ss.append(tr)
    n = ctx.sum(ss)

    def same(name, got, p, r, f, s=n):
        for key, x in (("precision", p), ("recall", r), ("f1-score", f)):
            ctx.check_eq("%s %s" % (name, key), got[key], x)
        ctx.check_eq(name + " support", got["support"], s)

    extra = ["macro avg", "weighted avg", "accuracy" if len(use) == k else "micro avg"]
    ctx.check("entries", sorted(rep) == sorted([names[i] for i in use] + extra))
    for i, p, r, f, s in zip(use, ps, rs, fs, ss):
        same(names[i], rep[names[i]], p, r, f, s)
    pos = len([s for s in ss if bool(s > 0)])
    if pos:
        same("macro avg", rep["macro avg"], *[ctx.sum(xs) / pos for xs in (ps, rs, fs)])
        ctx.check_eq("score", f1, ctx.sum(fs) / pos)
    else:
        ctx.check("undefined score", bool(f1 != f1))
    same("weighted avg", rep["weighted avg"],
         *[ratio(ctx, ctx.sum([x * s for x, s in zip(xs, ss)]), n) for xs in (ps, rs, fs)])
    tp = ctx.sum([m[i][i] for i in use])
    pr = ctx.sum([m[j][i] for i in use for j in range(k)])
    p, r = ratio(ctx, tp, pr), ratio(ctx, tp, n)
    if len(use) == k:
        ctx.check_eq("accuracy", rep["accuracy"], p)
    else:
        same("micro avg", rep["micro avg"], p, r, f_of(ctx, p, r, 1))


AV = (None, "micro", "macro", "weighted")
HARNESSES = [
    Harness(scores,
            quick=[dict(k=2, average=a) for a in AV]
            + [dict(k=3, labels=[2, 0], average=a) for a in (None, "micro", "weighted")]
            + [dict(k=3), dict(k=2, beta=2), dict(k=1)],
            thorough=[dict(k=3, average=a, beta=b) for a in AV for b in (1, 2)]
            + [dict(k=4, labels=[1, 2], average=a) for a in AV],
            bounds="2-3 labels (thorough 4), any counts up to 1000"),
    Harness(evaluation,
            quick=[dict(k=2, shape=[1, 3]), dict(k=3, shape=[1, 2], omit=["PAD"], keep=True),
                   dict(k=4, shape=[1, 2], omit=["PAD", "UNKNOWN"]),
                   dict(k=2, shape=[2, 2]),
                   dict(k=3, shape=[2, 1], omit=["A"], order=[1, 2, 0]),
                   dict(k=3, shape=[1, 2], omit=["UNKNOWN"], short=True),
                   dict(k=2, shape=[2, 2], short=True)],
            thorough=[dict(k=3, shape=[1, 3]), dict(k=3, shape=[1, 3], omit=["PAD"]),
                      dict(k=2, shape=[2, 2], order=[1, 0]), dict(k=5, shape=[1, 2], omit=["B"]),
                      dict(k=3, shape=[3, 1], omit=["PAD"], short=True, keep=True)],
            bounds="up to 4 positions and 4 labels"),
]
