"""P33: labelers apply their rules, labels and training data faithfully."""
import copy
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from dataprofiler.labelers import (  # noqa: F401  imported when a labeler is loaded
    char_load_tf_model,
    character_level_cnn_model,
)
from dataprofiler.labelers import column_name_model as CN
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler, TrainableDataLabeler
from dataprofiler.labelers.base_model import BaseModel
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.data_processing import (
    ColumnNameModelPostprocessor,
    DirectPassPreprocessor,
    RegexPostProcessor,
)
from dataprofiler.labelers.regex_model import RegexModel

from ..run import Harness

ASSUMPTIONS = [
    "regular expressions are literal words (matches found by the harness itself) and word "
    "boundaries; the similarity scores of the column name model are arbitrary numbers",
    "training: the model only records what it is given; the random permutations are inputs",
]


def spans(text, word, fold, ends):
    """non-overlapping matches from the left; ends: the match has to be a whole word"""
    out, at = [], 0
    t, w = (text.lower(), word.lower()) if fold else (text, word)
    while True:
        i = t.find(w, at)
        if i < 0:
            return out
        j = i + len(w)
        if ends and ((i > 0 and t[i - 1].isalnum()) or (j < len(t) and t[j].isalnum())):
            at = i + 1
            continue
        out.append((i, j))
        at = j


WORDS = ["a", "ab", "B", "b a"]
TEXTS = ["", "ab", "bab a", "AbB"]
BOUND = {"start": r"(?<![\w])", "end": r"(?![\w])"}


def rules(ctx, per, labels, words):
    return {n: [ctx.pick("%s%d" % (n, i), words) for i in range(k)]
            for n, k in zip(labels, per)}


def votes(text, patterns, mapping, fold, ends):
    n = max(mapping.values()) + 1
    out = [[0] * n for _ in text]
    for name, words in patterns.items():
        for w in words:
            for i, j in spans(text, w, fold, ends):
                for row in out[i:j]:
                    row[mapping[name]] = 1
    for row in out:
        if not any(row):
            row[mapping["UNKNOWN"]] = 1
    return out


def model(ctx, per, words=WORDS):
    mapping = [{"UNKNOWN": 0, "X": 1, "Y": 2}, {"X": 0, "UNKNOWN": 2, "Y": 3}][
        ctx.choose("mapping", 2)]
    pats = rules(ctx, per, ["X", "Y"], words)
    fold = bool(ctx.choose("ignore case", 2))
    ends = bool(ctx.choose("whole words", 2)) if words is WORDS else not fold
    par = dict(regex_patterns=pats, ignore_case=fold)
    if ends:
        par["encapsulators"] = BOUND
    return RegexModel(mapping, copy.deepcopy(par)), pats, mapping, fold, ends


def check_votes(ctx, tag, got, texts, pats, mapping, fold, ends, conf):
    ctx.check(tag + "a result per text", len(got["pred"]) == len(texts))
    for t, p in zip(texts, got["pred"]):
        want = votes(t, pats, mapping, fold, ends)
        ctx.check(tag + "votes", [[int(x) for x in row] for row in p] == want)
    ctx.check(tag + "confidences only when asked", ("conf" in got) == conf)
    if conf:
        for t, c in zip(texts, got["conf"]):
            want = votes(t, pats, mapping, fold, ends)
            ctx.check(tag + "confidences", len(c) == len(t) and all(
                abs(float(x) - y / sum(row)) < 1e-12
                for got_row, row in zip(c, want) for x, y in zip(got_row, row)))


def regex(ctx, per, ntexts):
    m, pats, mapping, fold, ends = model(ctx, per)
    texts = [ctx.pick("t%d" % i, TEXTS) for i in range(ntexts)]
    conf = bool(ctx.choose("confidences", 2))
    for again in ("", "again: "):
        got = m.predict(np.array(texts, dtype=object), show_confidences=conf, verbose=False)
        check_votes(ctx, again, got, texts, pats, mapping, fold, ends, conf)


def default_rules(ctx, ntexts):
    """the default label may have rules of its own"""
    mapping = [{"UNKNOWN": 0, "X": 1}, {"X": 0, "UNKNOWN": 1}][ctx.choose("mapping", 2)]
    names = ["X", "UNKNOWN"] if ctx.choose("order", 2) else ["UNKNOWN", "X"]
    pats = rules(ctx, [1, 1], names, WORDS)
    m = RegexModel(dict(mapping), dict(regex_patterns=copy.deepcopy(pats), ignore_case=True))
    texts = [ctx.pick("t%d" % i, TEXTS) for i in range(ntexts)]
    got = m.predict(np.array(texts, dtype=object), verbose=False)["pred"]
    for t, p in zip(texts, got):
        x = votes(t, {"X": pats["X"]}, mapping, True, False)
        for i, row in enumerate(p):
            ctx.check("votes of the label", int(row[mapping["X"]]) == x[i][mapping["X"]])
            if not x[i][mapping["X"]]:
                ctx.check("votes of the default label", int(row[mapping["UNKNOWN"]]) == 1)


def long_text(ctx, n):
    """every match in a long text counts"""
    gaps = ["c" * ctx.choose("gap%d" % i, 3) for i in range(3)]
    text = (gaps[0] + "ab" + gaps[1]) * n + gaps[2]
    m = RegexModel({"UNKNOWN": 0, "X": 1}, dict(regex_patterns={"X": ["ab"]}))
    p = m.predict([text], verbose=False)["pred"][0]
    ctx.check("votes", [[int(x) for x in row] for row in p] == votes(
        text, {"X": ["ab"]}, {"UNKNOWN": 0, "X": 1}, True, False))


def many(ctx, counts):
    """numbers of texts around the sizes the result list grows at"""
    m = RegexModel({"UNKNOWN": 0, "X": 1}, dict(regex_patterns={"X": ["ab"]}))
    n = counts[ctx.choose("texts", len(counts))]
    at = ctx.choose("where", 3)
    texts = ["c"] * n
    if n:
        texts[[0, n // 2, n - 1][at]] = "cab"
    got = m.predict(texts, verbose=False)
    ctx.check("a result per text", len(got["pred"]) == n)
    for t, p in zip(texts, got["pred"]):
        ctx.check("votes", [[int(x) for x in row] for row in p] == votes(
            t, {"X": ["ab"]}, {"UNKNOWN": 0, "X": 1}, True, False))


def pipeline(ctx, per):
    """a labeler made of parts, with input of any kind, saved and loaded, with other rules"""
    m, pats, mapping, fold, ends = model(ctx, per, ["a", "ab"])
    order = [sorted(mapping.values()), sorted(mapping.values())[::-1]][ctx.choose("order", 2)]
    order = [i for i in range(max(mapping.values()) + 1) if i not in order] + order
    post = RegexPostProcessor(aggregation_func="priority", priority_order=order)
    lab = BaseDataLabeler.load_with_components(DirectPassPreprocessor(), m, post)
    texts = [ctx.pick("t", TEXTS[1:]), "bb a"]
    form = ctx.choose("form", 4)
    data = [list(texts), np.array(texts, dtype=object), pd.Series(texts, index=[5, 5]),
            pd.DataFrame({"c": texts})][form]
    # the first matching label in priority order
    want = []
    for t in texts:
        v = votes(t, pats, mapping, fold, ends)
        want.append([next(k for k in order if row[k]) for row in v])

    def check(tag, labeler):
        got = labeler.predict(data, verbose=False)["pred"]
        ctx.check(tag + "labels", [list(map(int, g)) for g in got] == want)
        ctx.check(tag + "mapping", labeler.label_mapping == mapping)
    check("", lab)
    then = ctx.choose("then", 3)
    if then == 1:
        d = tempfile.mkdtemp(prefix="vp_")
        try:
            lab.save_to_disk(d)
            got = BaseDataLabeler.load_from_disk(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        check("loaded: ", got)
        ctx.check("loaded: same model", got.model == lab.model
                  and got.preprocessor == lab.preprocessor)
    if then == 2:
        pats = {"Y": [ctx.pick("new", ["B", "b a"])]}
        lab.set_params({"model": {"regex_patterns": copy.deepcopy(pats)}})
        want = [[next(k for k in order if row[k]) for row in votes(t, pats, mapping, fold, ends)]
                for t in texts]
        check("changed: ", lab)


class Plain(BaseModel):
    """a model that only has labels and records its training data"""
    requires_zero_mapping = False

    def __init__(self, labels, zero=False):
        self.requires_zero_mapping = zero
        self.seen = []
        super().__init__(labels, {})

    def _validate_parameters(self, parameters):
        pass

    def _need_to_reconstruct_model(self):
        return False

    def _construct_model(self):
        pass

    def _reconstruct_model(self):
        pass

    def reset_weights(self):
        self.seen.append("reset")

    def predict(self, data, batch_size, show_confidences, verbose):
        return {"pred": data}

    def fit(self, train, val):
        self.seen.append((train, val))
        return len(self.seen)

    @classmethod
    def load_from_disk(cls, dirpath):
        raise NotImplementedError

    def save_to_disk(self, dirpath):
        pass


def mapping(ctx, steps):
    """labels set as list or dict, then added one by one"""
    zero = bool(ctx.choose("zero is a label", 2))
    kind = ctx.choose("given as", 2)
    first = ["P", "Q", "R"][:1 + ctx.choose("labels", 3)]
    if kind:
        given = {n: ctx.choose("code " + n, 3) for n in first}
        want = dict(given)
    else:
        given = list(first)
        want = {n: i + (0 if zero else 1) for i, n in enumerate(first)}
    keep = copy.deepcopy(given)
    m = Plain(["Z"], zero)
    m.set_label_mapping(given)
    for s in range(steps):
        name = ["P", "S", "T", ""][ctx.choose("add%d" % s, 4)]
        same = [None, "P", "N"][ctx.choose("same%d" % s, 3)]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m.add_label(name, same)
            ok = True
        except (TypeError, ValueError):
            ok = False
        bad = name == "" or (name not in want and same is not None and same not in want)
        ctx.check("refused exactly when there is no such label", ok == (not bad))
        if not bad and name not in want:
            want[name] = want[same] if same else max(want.values()) + 1
        ctx.check("labels", m.label_mapping == want)
    ctx.check("given labels unchanged", given == keep)
    ctx.check("number of labels", m.num_labels == max(want.values()) + 1)
    ctx.check("reverse", all(want[n] == k for k, n in m.reverse_label_mapping.items())
              and set(m.reverse_label_mapping) == set(want.values()))
    ctx.check("names in order", [want[n] for n in m.labels] == sorted(set(want.values())))
    m.label_mapping["new"] = 9
    ctx.check("a copy is returned", m.label_mapping == want)


class permuted:
    """np.random.permutation as input"""

    def __init__(self, ctx):
        self.ctx, self.k = ctx, 0

    def __call__(self, n):
        rest, out = list(range(n)), []
        while rest:
            self.k += 1
            out.append(rest.pop(self.ctx.choose("p%d" % self.k, len(rest))))
        return np.array(out, dtype=int)

    def __enter__(self):
        self.old = np.random.permutation
        np.random.permutation = self
        return self

    def __exit__(self, *a):
        np.random.permutation = self.old
        return False


def training(ctx, n, epochs, splits):
    split = ctx.pick("split", splits)
    xs = ["t%d" % i for i in range(n)]
    ys = ["l%d" % i for i in range(n)]
    m = Plain(["Z"])
    lab = TrainableDataLabeler.load_with_components(
        DirectPassPreprocessor(), m, ColumnNameModelPostprocessor())
    form = ctx.choose("form", 3)
    conv = [list, lambda v: np.array(v, dtype=object), lambda v: pd.Series(v, index=[7] * len(v))]
    labels = [None, ["P", "Q"]][ctx.choose("new labels", 2)]
    reset = bool(ctx.choose("reset", 2))
    with permuted(ctx):
        out = lab.fit(conv[form](xs), conv[form](ys), validation_split=split, labels=labels,
                      reset_weights=reset, epochs=epochs)
    ctx.check("a result per epoch", len(out) == epochs)
    ctx.check("labels", lab.label_mapping == ({"Z": 1} if labels is None else {"P": 1, "Q": 2}))
    seen = m.seen
    ctx.check("weights reset when asked", (seen[:1] == ["reset"]) == reset
              and seen.count("reset") == reset)
    seen = [s for s in seen if s != "reset"]
    ctx.check("epochs", len(seen) == epochs)
    size = max(1, int(n * (1 - split)))
    train0 = None
    for (tx, ty), val in seen:
        tx, ty = list(tx), list(ty)
        ctx.check("texts with their labels", [t[1:] for t in tx] == [y[1:] for y in ty])
        ctx.check("number of texts", len(tx) == size and len(set(tx)) == size)
        train0 = set(tx) if train0 is None else train0
        ctx.check("the same texts in every epoch", set(tx) == train0)
        if split and size >= 2:
            vx, vy = map(list, val)
            ctx.check("validation labels", [t[1:] for t in vx] == [y[1:] for y in vy])
            ctx.check("the other texts for validation", sorted(vx + tx) == xs)
        else:
            ctx.check("no validation", val is None)


def names(ctx, ncols, nattr, nneg=0, conf=True):
    """column names by similarity: any scores"""
    cols = ["c%d" % i for i in range(ncols)]
    attrs = ["a%d" % i for i in range(nattr)]
    labels = ["L%d" % (i % 2) for i in range(nattr)]
    score = {(c, a): ctx.real("s_%s_%s" % (c, a), 0, 100)
             for c in cols for a in attrs + ["n%d" % i for i in range(nneg)]}
    par = dict(true_positive_dict=[dict(attribute=a, label=n) for a, n in zip(attrs, labels)],
               positive_threshold_config=60)
    if nneg:
        par.update(false_positive_dict=[dict(attribute="n%d" % i) for i in range(nneg)],
                   negative_threshold_config=50)
    m = ColumnNameModel({"L0": 0, "L1": 1}, par)
    old = CN.rapidfuzz.process.cdist

    def cdist(rows, columns, processor=None, scorer=None, **k):
        return np.array([[score[r, c] for c in columns] for r in rows],
                        dtype=object if ctx.symbolic else float).reshape(len(rows), len(columns))
    CN.rapidfuzz.process.cdist = cdist
    try:
        got = m.predict(cols, show_confidences=conf, verbose=False)
    finally:
        CN.rapidfuzz.process.cdist = old
    want = []
    for c in cols:
        if nneg and not bool(ctx.max([score[c, "n%d" % i] for i in range(nneg)]) < 50):
            continue
        best = ctx.max([score[c, a] for a in attrs])
        if bool(best > 60):
            want.append((best, [n for a, n in zip(attrs, labels) if bool(score[c, a] == best)]))
    pred = list(got["pred"])
    ctx.check("names that are labelled", len(pred) == len(want))
    for p, (best, ls) in zip(pred, want):
        ctx.check("label of a most similar name", p in ls)
    if conf:
        for p, (best, ls) in zip(got["conf"], want):
            ctx.check_eq("similarity", p, best)


HARNESSES = [
    Harness(regex, quick=[dict(per=[1, 1], ntexts=1), dict(per=[2, 0], ntexts=1),
                          dict(per=[1, 0], ntexts=2)],
            thorough=[dict(per=[2, 1], ntexts=1), dict(per=[1, 1], ntexts=2)],
            bounds="up to 3 words for 2 labels, 1-2 texts of up to 5 characters"),
    Harness(default_rules, quick=[dict(ntexts=1)], thorough=[dict(ntexts=2)],
            bounds="one rule each for a label and the default label, 4 words, 4 texts"),
    Harness(long_text, quick=[dict(n=130)], bounds="texts of 260 to 1000 characters"),
    Harness(many, quick=[dict(counts=[0, 1, 99, 100, 101, 201])],
            bounds="the listed numbers of texts"),
    Harness(pipeline, quick=[dict(per=[1, 1])], thorough=[dict(per=[2, 1])],
            bounds="2 labels, 2 texts, every kind of input"),
    Harness(mapping, quick=[dict(steps=2)], thorough=[dict(steps=3)],
            bounds="up to 3 labels and 2 (3) additions"),
    Harness(training, quick=[dict(n=1, epochs=2, splits=[0.0, 0.2]),
                             dict(n=3, epochs=2, splits=[0.0, 0.2, 0.5]),
                             dict(n=4, epochs=1, splits=[0.25, 0.9])],
            thorough=[dict(n=4, epochs=2, splits=[0.25, 0.5]), dict(n=3, epochs=3, splits=[0.2])],
            bounds="up to 4 texts, every permutation"),
    Harness(names, quick=[dict(ncols=1, nattr=3), dict(ncols=2, nattr=2),
                          dict(ncols=2, nattr=1, nneg=1), dict(ncols=1, nattr=2, nneg=2, conf=False)],
            thorough=[dict(ncols=2, nattr=3), dict(ncols=2, nattr=2, nneg=2)],
            stubs=["rapidfuzz.process.cdist -> arbitrary scores"],
            bounds="up to 2 column names and 3 known names, any scores"),
]
