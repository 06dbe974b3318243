"""P27: entity counts and percentages of labelled text."""
import numpy as np
import pandas as pd

from dataprofiler.labelers.data_processing import CharPostprocessor
from dataprofiler.profilers.profiler_options import DataLabelerOptions
from dataprofiler.profilers.unstructured_labeler_profile import UnstructuredLabelerProfile

from ..run import Harness

ASSUMPTIONS = [
    "the labeler returns one label per character (P20); post-processed labels are those of the "
    "real CharPostprocessor at word level",
    "a background word is one that a separator ends (the repository's tests pin that a word "
    "reaching the end of its text is not counted)",
]
MAPPING = {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3}
NAMES = {v: k for k, v in MAPPING.items()}
LEVELS = ("word_level", "true_char_level", "postprocess_char_level")


class Labeler:
    """stands for a trained labeler: the labels of every text are given"""

    label_mapping, reverse_label_mapping, labels = MAPPING, NAMES, list(MAPPING)

    def __init__(self):
        self.label = {}

    def predict(self, data, *a, **k):
        return {"pred": [np.array([self.label[c] for c in t]) for t in data]}


def profile(labeler):
    o = DataLabelerOptions()
    o.data_labeler_object = labeler
    return UnstructuredLabelerProfile(options=o)


# distinct characters carry their labels
LETTERS = [chr(0x100 + i) for i in range(40)]
SEPS = [" ", ",", ";", ":", "\n", "\t", ".", "'", '"']


def make(ctx, lab, sizes, labels, bang=False):
    out, n, seps = [], 0, list(SEPS)
    for i, k in enumerate(sizes):
        t = ""
        for _ in range(k):
            what = ctx.choose("c%d" % n, 3 if bang else 2)
            if what == 0:
                c = LETTERS[n]
            elif what == 1:
                c = seps.pop(0)
            else:
                c = "!"
            lab.label[c] = (labels[ctx.choose("l%d" % n, len(labels))]
                            if c not in lab.label else lab.label[c])
            t += c
            n += 1
        out.append(t)
    return out


def want(lab, texts):
    """counts per level by definition; None for a level the definition leaves open"""
    w, vague = {k: {} for k in LEVELS}, False

    def add(level, name, n=1):
        if n:
            w[level][name] = w[level].get(name, 0) + n
    for t in texts:
        for c in t:
            add("true_char_level", NAMES[lab.label[c]])
        post = CharPostprocessor(use_word_level_argmax=True, output_format="NER")
        spans = post.process(pd.Series([t]), lab.predict([t]), MAPPING)["pred"][0]
        owner = ["UNKNOWN"] * len(t)
        for a, b, name in spans:
            owner[a:b] = [name] * (b - a)
            add("word_level", name)
        covered = [any(a <= i < b for a, b, _ in spans) for i in range(len(t))]
        for name in owner:
            add("postprocess_char_level", name)
        sep = SEPS + ["!"]
        for i, c in enumerate(t):
            if covered[i] or c in sep:
                continue
            if i + 1 == len(t):
                continue
            if covered[i + 1]:
                vague = True
            if t[i + 1] in sep:
                add("word_level", "UNKNOWN")
    return dict(w, word_level=None) if vague else w


def compare(ctx, p, w, chars):
    rep = p.profile
    for level in LEVELS:
        if w[level] is None:
            continue
        got = rep["entity_counts"][level]
        for k in set(got) | set(w[level]):
            ctx.check_eq(level + " count", got.get(k, 0), w[level].get(k, 0))
        total = sum(w[level].values()) if level == "word_level" else chars
        pct = rep["entity_percentages"][level]
        for k in set(w[level]) if total else ():
            ctx.check_eq(level + " percentage", pct[k], w[level][k] / total)
    ctx.check_eq("characters", p.char_sample_size, chars)
    if w["word_level"] is not None:
        ctx.check_eq("words", p.word_sample_size, sum(w["word_level"].values()))


def counts(ctx, sizes, split=None, merge=None, labels=(1, 2, 3), bang=False):
    lab = Labeler()
    texts = make(ctx, lab, sizes, labels, bang)
    p = profile(lab)
    cut = len(texts) if split is None else split
    p.update(pd.Series(texts[:cut], dtype=object))
    if split is not None:
        p.update(pd.Series(texts[cut:], dtype=object))
    compare(ctx, p, want(lab, texts), sum(sizes))
    if merge is not None:
        a, b = profile(lab), profile(lab)
        a.update(pd.Series(texts[:merge], dtype=object))
        b.update(pd.Series(texts[merge:], dtype=object))
        m = a + b
        compare(ctx, m, want(lab, texts), sum(sizes))
        compare(ctx, a, want(lab, texts[:merge]), sum(sizes[:merge]))
        more = [texts[0]]
        m.update(pd.Series(more, dtype=object))
        compare(ctx, m, want(lab, texts + more), sum(sizes) + sizes[0])
        compare(ctx, b, want(lab, texts[merge:]), sum(sizes[merge:]))


def totals(ctx, left, right):
    """merging profiles of any counts"""
    lab = Labeler()
    ps, sums = [], []
    for side, names in (("a", left), ("b", right)):
        p = profile(lab)
        for level in LEVELS:
            for n in names:
                p.entity_counts[level][n] = ctx.int("%s_%s_%s" % (side, level, n), lo=1)
        p.word_sample_size = sum(p.entity_counts["word_level"].values())
        p.char_sample_size = sum(p.entity_counts["true_char_level"].values())
        # both character levels cover the same characters
        ctx.assume(ctx.all([sum(p.entity_counts["postprocess_char_level"].values()) ==
                            p.char_sample_size]))
        p._update_percentages()
        ps.append(p)
        sums.append({lv: dict(p.entity_counts[lv]) for lv in LEVELS})
    m = ps[0] + ps[1]
    rep = m.profile
    for level in LEVELS:
        total = sum(sums[0][level].values()) + sum(sums[1][level].values())
        names = set(left) | set(right)
        ctx.check("labels", set(rep["entity_counts"][level]) == names)
        for n in names:
            w = sums[0][level].get(n, 0) + sums[1][level].get(n, 0)
            ctx.check_eq(level + " count", rep["entity_counts"][level][n], w)
            ctx.check_eq(level + " percentage", rep["entity_percentages"][level][n] * total, w)
        for p, s in zip(ps, sums):
            ctx.check("operands keep their labels", set(p.entity_counts[level]) == set(s[level]))
            for n in s[level]:
                ctx.check_eq("operands unchanged", p.entity_counts[level][n], s[level][n])


HARNESSES = [
    Harness(counts, quick=[
        dict(sizes=[1]), dict(sizes=[2]), dict(sizes=[3]), dict(sizes=[4], labels=(1, 2)),
        dict(sizes=[3], labels=(0, 1, 2)), dict(sizes=[3], labels=(1, 2), bang=True),
        dict(sizes=[2, 2], labels=(1, 2), split=1, merge=1),
        dict(sizes=[2, 1, 1], labels=(1, 2), split=1, merge=2),
        dict(sizes=[5], labels=(1, 2))],
        thorough=[dict(sizes=[4]), dict(sizes=[6], labels=(1, 2)), dict(sizes=[2, 2], split=1, merge=1),
                  dict(sizes=[4], labels=(1, 2), bang=True),
                  dict(sizes=[3, 2], labels=(1, 2), split=1, merge=1)],
        bounds="up to 3 texts, together up to 5 characters (thorough 6), each a letter or separator "
        "of any of up to 4 labels; one split and one merge",
        stubs=["data labeler: given labels per character"]),
    Harness(totals, quick=[dict(left=["UNKNOWN", "A"], right=["A", "B"]),
                           dict(left=["A"], right=["B"]), dict(left=[], right=["A", "UNKNOWN"]),
                           dict(left=["A", "B"], right=[])],
            bounds="two profiles of up to 2 labels with any counts"),
]
