"""P20: labeler pre- and post-processing keeps characters and labels aligned."""
import itertools
import random
import sys
import types

import numpy as np

from dataprofiler.labelers.data_processing import (
    CharEncodedPreprocessor,
    CharPostprocessor,
    CharPreprocessor,
    RegexPostProcessor,
    StructCharPostprocessor,
    StructCharPreprocessor,
    StructRegexPostProcessor,
)

from ..run import Harness

ASSUMPTIONS = [
    "the model returns one label per character of every piece it is given",
    "alignment after post-processing is judged for flatten_split 0 and 1 (other values reorder "
    "pieces and serve training); flatten separators do not occur in the texts",
]
MAPPING = {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3}
SEPS = [",", ";", "\n", "\t", "\r"]
_tf = types.ModuleType("tensorflow")
_tf.keras = types.SimpleNamespace(utils=types.SimpleNamespace(
    to_categorical=lambda y, n: [np.eye(n)[np.array(row, dtype=int)] for row in y]))


class without_tf:
    """process() imports tensorflow only for one-hot encoding"""

    def __enter__(self):
        self.old = sys.modules.get("tensorflow")
        if self.old is None:
            sys.modules["tensorflow"] = _tf

    def __exit__(self, *a):
        if self.old is None:
            sys.modules.pop("tensorflow", None)


def texts(ctx, lens, breaks):
    """texts of distinct characters; `breaks` of them may be word separators"""
    out, n, seps = [], 0, list(SEPS)
    for i, top in enumerate(lens):
        k = ctx.choose("len%d" % i, top + 1)
        t = ""
        for _ in range(k):
            if breaks and seps and ctx.choose("sep%d" % n, 2):
                t += seps.pop()
            else:
                t += chr(0x100 + n)
            n += 1
        out.append(t)
    return out


def pieces(ctx, pre, data, labels, batch):
    xs, ys = [], []
    with without_tf():
        for got in pre.process(np.array(data, dtype=object),
                               None if labels is None else np.array(labels, dtype=object),
                               MAPPING if labels is not None else None, batch):
            x, y = (got, None) if labels is None else got
            ctx.check("batch size", 0 < len(x) <= batch)
            xs += [r[0] for r in x]
            if y is not None:
                ctx.check("one label row per piece", len(y) == len(x))
                ys += [[int(v) for v in np.argmax(r, axis=1)] for r in y]
    return xs, ys


def preprocess(ctx, lens, maxlen, split, sep, at_max=False, breaks=True, batch=32, labelled=False):
    pre = CharPreprocessor(max_length=maxlen, flatten_split=split, flatten_separator=sep,
                           is_separate_at_max_len=at_max)
    data = texts(ctx, lens, breaks)
    want, labels = {}, None
    if labelled:
        labels = []
        for i, t in enumerate(data):
            spans = []
            if t:
                a = ctx.choose("a%d" % i, len(t))
                b = a + 1 + ctx.choose("b%d" % i, len(t) - a)
                spans.append((a, b, "A"))
            for j, c in enumerate(t):
                want[c] = 2 if spans and spans[0][0] <= j < spans[0][1] else 1
            labels.append(spans)
        labels = labels + [None]
        labels = np.array(labels, dtype=object)[:-1]
    xs, ys = pieces(ctx, pre, data, labels, batch)
    ctx.check("piece length", all(0 < len(x) <= maxlen for x in xs))
    parts = [p for x in xs for p in (x.split(sep) if sep else [x])]
    if split in (0, 1):
        ctx.check("pieces concatenate to the texts", "".join(parts) == "".join(data))
    else:
        # pieces may be reordered, but every text is cut into pieces in its own order
        ctx.check("no character lost or repeated",
                  sorted("".join(parts)) == sorted("".join(data)))
        for p in parts if sep else ():
            ctx.check("each part is a part of one text", any(p in t for t in data))
    for x, y in zip(xs, ys):
        ctx.check("one label per position up to the maximum length", len(y) == maxlen)
        ctx.check("labels of the characters", all(
            y[i] == want.get(c, 1) for i, c in enumerate(x)))
        ctx.check("padding", all(v == 0 for v in y[len(x):]))


def roundtrip(ctx, lens, maxlen, split, sep, at_max=False, breaks=True, conf=False, struct=False):
    data = texts(ctx, lens, breaks)
    cls, post = ((StructCharPreprocessor, StructCharPostprocessor) if struct else
                 (CharPreprocessor, CharPostprocessor))
    kw = {} if struct else {"flatten_split": split}
    pre = cls(max_length=maxlen, flatten_separator=sep, is_separate_at_max_len=at_max, **kw)
    label = {c: ctx.int("l%d" % n, 1, 3, relaxed=True) for n, c in enumerate("".join(data))}
    xs, _ = pieces(ctx, pre, data, None, 32)
    pred = []
    for x in xs:
        row = np.empty(len(x), dtype=object if ctx.symbolic else float)
        for i, c in enumerate(x):
            row[i] = label.get(c, -1)
        pred.append(row)
    res = {"pred": pred}
    if conf:
        res["conf"] = [np.array([[ord(c)] for c in x]) for x in xs]
    if struct:
        got = StructCharPostprocessor.match_sentence_lengths(
            np.array(data, dtype=object), res, sep)
    else:
        got = CharPostprocessor(flatten_separator=sep).process(
            np.array(data, dtype=object), res, MAPPING)
    ctx.check("one result per text", len(got["pred"]) == len(data))
    for i, (t, p) in enumerate(zip(data, got["pred"])):
        ctx.check("one label per character", len(p) == len(t))
        for c, v in zip(t, p):
            ctx.check_eq("the label of the character", v, label[c])
        if conf:
            ctx.check("the confidences of the character",
                      [int(v[0]) for v in got["conf"][i]] == [ord(c) for c in t])


def ner(ctx, n, k=4, mapping=MAPPING, default="UNKNOWN", pad="PAD"):
    ns = n if isinstance(n, list) else [n]
    seqs = [[ctx.choose("l%d_%d" % (s, i), k) for i in range(m)] for s, m in enumerate(ns)]
    out = CharPostprocessor.convert_to_NER_format([list(s) for s in seqs], mapping, default, pad)
    ctx.check("one list of spans per text", len(out) == len(ns))
    names = {v: m for m, v in mapping.items()}
    for seq, got in zip(seqs, out):
        want, i = [], 0
        while i < len(seq):
            j = i + 1
            if names[seq[i]] not in (default, pad):
                while j < len(seq) and seq[j] == seq[i]:
                    j += 1
                want.append((i, j, names[seq[i]]))
            i = j
        ctx.check("maximal spans of equal labels", [tuple(s) for s in got] == want)


def cells(ctx, lens, maxlen, labels=None):
    """training on cells: every character of a cell carries the cell's label"""
    data = texts(ctx, lens, False)
    kinds = ["A", "B", "UNKNOWN"]
    want = [kinds[ctx.choose("k%d" % i, 3)] for i in range(len(data))]
    pre = StructCharPreprocessor(max_length=maxlen, flatten_separator="::"[:max(0, maxlen - 1)])
    xs, ys = pieces(ctx, pre, data, want, 32)
    sep = pre._parameters["flatten_separator"]
    of = {c: MAPPING[k] for t, k in zip(data, want) for c in t}
    ctx.check("pieces concatenate to the cells",
              "".join(x.replace(sep, "") for x in xs) == "".join(data))
    for x, y in zip(xs, ys):
        ctx.check("one label per position up to the maximum length", len(y) == maxlen)
        ctx.check("labels of the characters", all(y[i] == of[c] for i, c in enumerate(x)
                                                  if c in of))


def one_text(ctx, lens):
    """a column as one text: the cells in order with their labels at their places"""
    data = texts(ctx, lens, False)
    kinds = ["A", "B", "UNKNOWN"]
    want = [kinds[ctx.choose("k%d" % i, 3)] for i in range(len(data))]
    pre = StructCharPreprocessor(max_length=50, flatten_separator="::")
    text, spans = pre.convert_to_unstructured_format(
        np.array(data, dtype=object), np.array(want, dtype=object))
    ctx.check("cells joined by the separator", text == "::".join(data))
    got = ["UNKNOWN"] * len(text)
    for a, b, k in spans:
        ctx.check("span within the text", 0 <= a <= b <= len(text))
        for i in range(a, b):
            got[i] = k
    of = {c: k for t, k in zip(data, want) for c in t}
    ctx.check("label of every character of a cell", all(
        g == of[c] for c, g in zip(text, got) if c in of))
    ctx.check("no labels asked for",
              pre.convert_to_unstructured_format(np.array(data, dtype=object), None)[1] is None)


def encoded(ctx, lens, maxlen, labelled):
    """characters are replaced by their code, unknown ones and padding by 0"""
    data = texts(ctx, lens, True)
    codes = {c: 1 + i for i, c in enumerate(SEPS + [chr(0x100 + k) for k in (0, 2, 3)])}
    pre = CharEncodedPreprocessor(encoding_map=codes, max_length=maxlen, flatten_split=0)
    labels = None
    if labelled:
        labels = np.empty(len(data), dtype=object)
        for i, t in enumerate(data):
            labels[i] = [(0, 1, "B")] if t else []
    plain, _ = pieces(ctx, CharPreprocessor(max_length=maxlen), data, None, 32)
    rows, ys = [], []
    with without_tf():
        for got in pre.process(np.array(data, dtype=object), labels, MAPPING, 32):
            if labelled:
                got, y = got
                ys += list(y)
            rows += [list(map(int, r)) for r in got]
    ctx.check("one row per piece", len(rows) == len(plain))
    if labelled:
        ctx.check("one label row per piece", len(ys) == len(plain))
    for x, r in zip(plain, rows):
        ctx.check("codes", r == [codes.get(c, 0) for c in x] + [0] * (maxlen - len(x)))


class Random(random.Random):
    ctx = None

    def choice(self, seq):
        return seq[self.ctx.choose("draw", len(seq))]

    def shuffle(self, seq):
        for i in range(len(seq) - 1):
            j = i + self.ctx.choose("shuffle%d" % i, len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]


def structured(ctx, cells, pred_labels=False, conf=True):
    """the label of a cell is a most frequent one of its characters, background last"""
    seqs = [[ctx.choose("l%d_%d" % (i, j), 4) for j in range(n)] for i, n in enumerate(cells)]
    rng = Random()
    rng.ctx = ctx
    post = StructCharPostprocessor(is_pred_labels=pred_labels, random_state=rng)
    res = {"pred": [np.array(s) for s in seqs]}
    if conf:
        res["conf"] = [np.eye(4)[s] if s else np.zeros((0, 4)) for s in seqs]
    out = post.process(np.array(["x" * n for n in cells], dtype=object), res, MAPPING)
    names = {v: m for m, v in MAPPING.items()}
    ctx.check("one label per cell", len(out["pred"]) == len(cells))
    for i, s in enumerate(seqs):
        s = [v for v in s if v != 0]
        got = out["pred"][i]
        if not s:
            ctx.check("no label", got is None or (not pred_labels and np.isnan(got)))
            continue
        modes = [v for v in set(s) if s.count(v) == max(s.count(u) for u in s)]
        if len(modes) > 1:
            modes = [v for v in modes if v != 1]
        ctx.check("most frequent label", (got in [names[v] for v in modes]) if pred_labels
                  else int(got) in modes)
        if conf:
            for v in range(4):
                ctx.check_eq("confidence is the share of characters", out["conf"][i][v],
                             s.count(v) / len(s))


def words(ctx, n, labels=3, percent=0.75, before=False):
    """word level labels: every word followed by a separator gets one label, one it reaches"""
    text = "".join(ctx.pick("c%d" % i, ["x", " "]) for i in range(n))
    seq = [1 + ctx.choose("l%d" % i, labels) for i in range(n)]
    data, pred = [text], [seq]
    if before:
        # a text before it, ending within a word, must not matter
        data, pred = ["y yy", text], [[2, 3, 3, 3], seq]
    kw = {"separators": (" ", ".")} if before else {}
    post = CharPostprocessor(use_word_level_argmax=True, word_level_min_percent=percent,
                             flatten_separator="", **kw)
    out = post.process(np.array(data, dtype=object), {"pred": [np.array(p) for p in pred]},
                       MAPPING)
    ctx.check("one result per text", len(out["pred"]) == len(data))
    got = [int(v) for v in out["pred"][-1]]
    ctx.check("one label per character", len(got) == n)
    i = 0
    while i < n:
        j = i
        while j < n and text[j] != " ":
            j += 1
        if j < n and j > i:
            w = seq[i:j]
            ctx.check("one label per word", len(set(got[i:j])) == 1)
            ok = {v for v in set(w) if w.count(v) >= percent * len(w) and
                  w.count(v) == max(w.count(u) for u in w)}
            ctx.check("the word's dominating label", got[i] in ok | {1})
            if ok and max(w.count(u) for u in w) > 1:
                ctx.check("dominating label used", got[i] in ok)
        i = j + 1


def regex(ctx, chars, how):
    """regex votes: chars x labels 0/1 matrix with at least one vote per character"""
    votes = [[ctx.choose("v%d_%d" % (i, j), 2) for j in range(3)] for i in range(chars)]
    ctx.assume(all(sum(r) for r in votes))
    mapping = {"UNKNOWN": 0, "A": 1, "B": 2}
    data = np.array(["x" * chars, "y"], dtype=object)
    last = [[0, 1, 1]]
    res = {"pred": [np.array(votes, dtype=float), np.array(last, dtype=float)]}
    if how == "priority":
        order = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][ctx.choose("order", 3)]
        out = RegexPostProcessor("priority", order).process(data, res, mapping)
        for n, rows in enumerate((votes, last)):
            ctx.check("one label per character", len(out["pred"][n]) == len(rows))
            for r, v in zip(rows, out["pred"][n]):
                ctx.check("first label in priority order",
                          int(v) == [k for k in order if r[k]][0])
    elif how == "random":
        rng = Random()
        rng.ctx = ctx
        out = RegexPostProcessor("random", random_state=rng).process(data, res, mapping)
        got = [int(v) for v in out["pred"][0]]
        ctx.check("a matching label", all(r[v] for r, v in zip(votes, got)))
        ctx.check("one order for all characters", any(
            got == [[k for k in o if r[k]][0] for r in votes]
            for o in itertools.permutations(range(3))))
    elif how == "split":
        out = RegexPostProcessor("split").process(data, res, mapping)
        for n, rows in enumerate((votes, last)):
            ctx.check("one row per character", len(out["pred"][n]) == len(rows))
            for r, v in zip(rows, out["pred"][n]):
                for j in range(3):
                    ctx.check_eq("vote is split", v[j], r[j] / sum(r))
    else:
        out = StructRegexPostProcessor().process(data, res, mapping)
        share = [sum(r[j] / sum(r) for r in votes) / chars for j in range(3)]
        ctx.check("one label per cell", len(out["pred"]) == 2)
        ctx.check("second cell", int(out["pred"][1]) in (1, 2))
        top = int(out["pred"][0])
        ctx.check_le("label with the most votes", max(share) - 1e-9, share[top])
    ctx.check("input unchanged", bool((res["pred"][0] == np.array(votes)).all()))


HARNESSES = [
    Harness(preprocess, quick=[
        dict(lens=[5], maxlen=3, split=0, sep=" "), dict(lens=[3, 3], maxlen=3, split=1, sep=" "),
        dict(lens=[4, 2], maxlen=4, split=1, sep=" ", at_max=True, breaks=False),
        dict(lens=[3, 2, 2], maxlen=4, split=1, sep="  ", breaks=False),
        dict(lens=[2, 2, 2], maxlen=3, split=0.5, sep=" ", breaks=False),
        dict(lens=[3, 3, 1], maxlen=4, split=1, sep="  ", at_max=True, breaks=False, labelled=True),
        dict(lens=[4, 3], maxlen=5, split=0.5, sep="  ", at_max=True, breaks=False),
        dict(lens=[2, 8], maxlen=3, split=1, sep=" ", at_max=True, breaks=False),
        dict(lens=[4, 2], maxlen=3, split=0.5, sep=" ", batch=1, breaks=False),
        dict(lens=[4], maxlen=3, split=0, sep=" ", labelled=True, batch=1),
        dict(lens=[3, 2], maxlen=4, split=1, sep=" ", labelled=True, breaks=False),
        dict(lens=[3, 2], maxlen=3, split=1, sep=" ", labelled=True),
        dict(lens=[3, 2], maxlen=3, split=0.5, sep="", labelled=True, breaks=False)],
        thorough=[dict(lens=[4, 4], maxlen=4, split=s, sep=" ") for s in (0, 1, 0.5)] +
        [dict(lens=[4, 3], maxlen=4, split=1, sep="  ", labelled=True),
         dict(lens=[3, 3, 3], maxlen=4, split=1, sep=" ", batch=2),
         dict(lens=[3, 3], maxlen=3, split=1, sep="", labelled=True)],
        bounds="up to 3 texts of up to 5 characters, any of them word separators, maximum length "
        "3 and 4, separators of 0-2 characters",
        stubs=["tensorflow.keras.utils.to_categorical: one-hot rows"]),
    Harness(roundtrip, quick=[
        dict(lens=[5, 2], maxlen=3, split=0, sep=" "), dict(lens=[3, 3], maxlen=3, split=1, sep=" "),
        dict(lens=[4, 3], maxlen=4, split=1, sep=" ", at_max=True, breaks=False, conf=True),
        dict(lens=[3, 2, 2], maxlen=4, split=1, sep="  ", breaks=False),
        dict(lens=[2, 2, 2], maxlen=5, split=1, sep="", breaks=False),
        dict(lens=[3, 3], maxlen=3, split=1, sep=" ", struct=True),
        dict(lens=[4, 3, 1], maxlen=4, split=1, sep="  ", at_max=True, breaks=False),
        dict(lens=[3, 3, 3], maxlen=5, split=1, sep=" ", breaks=False),
        dict(lens=[9, 3, 3], maxlen=8, split=1, sep="12345", breaks=False, struct=True),
        dict(lens=[3, 2, 2], maxlen=6, split=1, sep="  ", breaks=False, struct=True, conf=True)],
        thorough=[dict(lens=[4, 4], maxlen=4, split=1, sep=" "),
                  dict(lens=[3, 3, 3], maxlen=4, split=1, sep=" "),
                  dict(lens=[3, 3, 3, 3], maxlen=5, split=1, sep="  ", breaks=False),
                  dict(lens=[9, 2], maxlen=4, split=0, sep=" "),
                  dict(lens=[5, 5], maxlen=4, split=1, sep=" ", breaks=False, struct=True)],
        bounds="as for pre-processing; every label sequence"),
    Harness(encoded, quick=[dict(lens=[4], maxlen=3, labelled=False),
                            dict(lens=[2, 2], maxlen=3, labelled=True)],
            thorough=[dict(lens=[4, 3], maxlen=3, labelled=True)],
            bounds="2 texts of up to 4 characters"),
    Harness(cells, quick=[dict(lens=[3, 2], maxlen=4), dict(lens=[4, 1], maxlen=3)],
            thorough=[dict(lens=[3, 3, 2], maxlen=4), dict(lens=[9], maxlen=4)],
            bounds="2 cells of up to 4 characters, 3 labels"),
    Harness(one_text, quick=[dict(lens=[2, 2, 1]), dict(lens=[3])],
            thorough=[dict(lens=[2, 2, 2, 2])], bounds="3 cells of up to 3 characters"),
    Harness(ner, quick=[dict(n=n) for n in (0, 1, 2, 3, 4, 5, [2, 2], [1, 0, 2])] +
            [dict(n=4, mapping={"A": 0, "B": 1, "bg": 2, "none": 3}, default="bg", pad="none")], thorough=[dict(n=6), dict(n=7, k=3)],
            bounds="every sequence of up to 5 labels out of 4 (thorough 6)"),
    Harness(structured, quick=[dict(cells=[4]), dict(cells=[0, 2]), dict(cells=[2, 1]),
                               dict(cells=[3], pred_labels=True, conf=False)],
            thorough=[dict(cells=[5]), dict(cells=[3, 2], pred_labels=True)],
            bounds="cells of up to 4 characters, 4 labels, every random draw",
            stubs=["random.Random.choice: any element"]),
    Harness(words, quick=[dict(n=3), dict(n=4), dict(n=5, labels=2, percent=0.5),
                          dict(n=4, percent=0.5, before=True), dict(n=3, percent=1, before=True),
                          dict(n=4, labels=2, percent=0)],
            thorough=[dict(n=6, labels=2), dict(n=5)],
            bounds="texts of up to 5 characters, 3 labels"),
    Harness(regex, quick=[dict(chars=2, how=h) for h in ("priority", "split", "struct", "random")],
            thorough=[dict(chars=3, how=h) for h in ("split", "struct")],
            bounds="2 characters, 3 labels"),
]
