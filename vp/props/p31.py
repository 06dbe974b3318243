"""P31: unstructured profiles account for every text."""
import random
import string
import warnings

import pandas as pd

from dataprofiler.profilers import profile_builder as PB
from dataprofiler.profilers.profile_builder import UnstructuredProfiler
from dataprofiler.profilers.profiler_options import ProfilerOptions

from ..run import Harness
from .p12 import Rng, draws

ASSUMPTIONS = [
    "texts come from a short list with blank, padded, multi-byte and multi-line ones",
    "without a data labeler (entity counts of labelled texts: P27)",
    "the random draws of the sampling are inputs",
]
TEXTS = ["", "ab cd", " \t\n" + " " * 9, "ab", "\u00e9, ab", "x\n\nab"]
STOP = set()


def options():
    o = ProfilerOptions()
    o.unstructured_options.data_labeler.is_enabled = False
    # no stop words
    o.unstructured_options.text.stop_words = []
    return o


def new(**k):
    return UnstructuredProfiler(None, options=options(), **k)


def texts(ctx, tag, n, k=len(TEXTS)):
    return [ctx.pick("%s%d" % (tag, i), TEXTS[:k]) for i in range(n)]


FORMS = ["list", "series", "frame", "labels"]


def given(ctx, tag, ts, forms=FORMS):
    """the texts as the data a user passes in"""
    f = forms[ctx.choose(tag + "form", len(forms))]
    if f == "list":
        return list(ts), "<class 'list'>"
    if f == "text":
        return ts[0], "<class 'str'>"
    index = None
    if f == "labels":
        # row labels: repeated or in another order
        index = [[0] * len(ts), list(range(len(ts)))[::-1]][ctx.choose(tag + "labels", 2)]
    s = pd.Series(ts, index=index, dtype=object)
    if f == "frame":
        return s.to_frame("t"), "<class 'pandas.core.frame.DataFrame'>"
    return s, "<class 'pandas.core.series.Series'>"


def blank(t):
    return not t.strip()


def word_counts(ts):
    out = {}
    for t in ts:
        for w in t.split():
            w = w.strip(string.punctuation)
            if w:
                out[w] = out.get(w, 0) + 1
    return out


def char_counts(ts):
    out = {}
    for t in ts:
        for c in t:
            out[c] = out.get(c, 0) + 1
    return out


def judge(ctx, p, seen, tag="", size=None):
    """seen: all texts used"""
    full = [t for t in seen if not blank(t)]
    g = p.report()["global_stats"]
    ctx.check(tag + "samples used", g["samples_used"] == len(seen))
    ctx.check(tag + "empty lines", g["empty_line_count"] == len(seen) - len(full))
    if not seen:
        ctx.check(tag + "nothing to report", not p.report()["data_stats"])
        return
    size = sum(len(t.encode("utf-8")) for t in (seen if size is None else size)) / 1024.0 ** 2
    ctx.check(tag + "memory size", abs(g["memory_size"] - size) < 1e-12)
    s = p.report()["data_stats"]["statistics"]
    ctx.check(tag + "vocabulary", sorted(s["vocab"] or []) == sorted(char_counts(full)))
    ctx.check(tag + "characters", dict(s["vocab_count"] or {}) == char_counts(full))
    ctx.check(tag + "words", sorted(s["words"] or []) == sorted(word_counts(full)))
    ctx.check(tag + "word counts", dict(s["word_count"] or {}) == word_counts(full))


def samples(ctx, p, full, tag=""):
    ctx.check(tag + "samples shown", all(t in full for t in p.sample) and
              len(p.sample) == min(5, len(full)))


def updates(ctx, sizes, forms=FORMS, k=len(TEXTS)):
    p, seen, kind = new(), [], None
    for b, n in enumerate(sizes):
        ts = texts(ctx, "xyz"[b], n, k)
        data, name = given(ctx, "xyz"[b], ts, forms)
        copy = data.copy() if hasattr(data, "copy") else data
        p.update_profile(data)
        kind = name if n else kind
        ctx.check("data not changed", copy == data if isinstance(data, (list, str))
                  else copy.equals(data))
        if ts == [""] and isinstance(data, str):
            ts = []     # no text at all
            kind = None
        seen += ts
        judge(ctx, p, seen)
        if seen:
            ctx.check("file type", p.report()["global_stats"]["file_type"] == kind)
        if ts:
            samples(ctx, p, [t for t in ts if not blank(t)])


def merges(ctx, sizes, after=0, k=len(TEXTS)):
    ps, parts = [], []
    for b, n in enumerate(sizes):
        ts = texts(ctx, "xyz"[b], n, k)
        p = new()
        p.update_profile(given(ctx, "xyz"[b], ts, ["list", "series"])[0])
        enc = ["utf-8", "latin-1"][ctx.choose("xyz"[b] + "encoding", 2)]
        p.encoding = enc
        ps.append((p, ts, enc))
    (a, ta, ea), (b, tb, eb) = ps
    before = [x[0].report()["global_stats"] for x in ps]
    m = a + b
    judge(ctx, m, ta + tb, "merged: ")
    g = m.report()["global_stats"]
    ctx.check("merged: encoding", g["encoding"] == (ea if ea == eb else "multiple files"))
    fa, fb = (x["file_type"] for x in before)
    ctx.check("merged: file type", g["file_type"] == (fa if fa == fb else "multiple files"))
    full = [t for t in ta + tb if not blank(t)]
    ctx.check("merged: samples shown", all(t in full for t in m.sample)
              and len(m.sample) == min(5, len(set(full))))
    judge(ctx, a, ta, "first operand: ")
    judge(ctx, b, tb, "second operand: ")
    d = a.diff(b)
    ga, gb = a.report()["global_stats"], b.report()["global_stats"]
    for n in ("samples_used", "empty_line_count", "memory_size"):
        x = ga[n] - gb[n]
        ctx.check("difference: " + n, d["global_stats"][n] == (x if x else "unchanged"))
    for n in ("file_type", "encoding"):
        ctx.check("difference: " + n, d["global_stats"][n] == (
            "unchanged" if ga[n] == gb[n] else [ga[n], gb[n]]))
    if after:
        ts = texts(ctx, "z", after, k)
        m.update_profile(ts)
        judge(ctx, m, ta + tb + ts, "updated after merge: ")
        judge(ctx, a, ta, "first operand later: ")


def sampled(ctx, n, per, least=0):
    """a sample of the texts: of `per` texts, more while fewer than `least` are not blank"""
    ts = texts(ctx, "x", n, 4)
    p = new(samples_per_update=per, min_true_samples=least)
    used = []
    old = PB.profiler_utils.shuffle_in_chunks

    def chunks(length, chunk_size):
        gen = old(length, chunk_size)
        try:
            for ids in gen:
                used.extend(int(i) for i in ids)
                yield ids
        finally:
            gen.close()
    PB.profiler_utils.shuffle_in_chunks = chunks
    try:
        with draws(Rng(ctx)), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p.update_profile(pd.Series(ts, dtype=object))
    finally:
        PB.profiler_utils.shuffle_in_chunks = old
    judge(ctx, p, [ts[i] for i in used], "sampled: ", ts)
    full = [not blank(ts[i]) for i in used]
    ctx.check("sampled: enough", len(used) == n or
              (len(used) >= per and sum(full) >= least))
    ctx.check("sampled: not more than needed", len(used) <= per or
              sum(full[:len(used) - per]) < least)


HARNESSES = [
    Harness(updates, quick=[dict(sizes=[1], forms=FORMS + ["text"]), dict(sizes=[2]),
                            dict(sizes=[3], forms=["list", "labels"], k=4),
                            dict(sizes=[1, 1]), dict(sizes=[1, 0, 1], forms=["list"])],
            thorough=[dict(sizes=[3]), dict(sizes=[2, 1]), dict(sizes=[1, 2], k=4)],
            bounds="up to 3 texts in up to 3 updates, as text, list, series (any row labels) or "
                   "frame"),
    Harness(merges, quick=[dict(sizes=[1, 1], after=1, k=4), dict(sizes=[2, 1], k=4)],
            thorough=[dict(sizes=[2, 2], k=4), dict(sizes=[1, 1], after=2)],
            bounds="two profiles of up to 2 texts, then an update"),
    Harness(sampled, quick=[dict(n=3, per=1), dict(n=3, per=2), dict(n=3, per=1, least=2)],
            thorough=[dict(n=4, per=2), dict(n=4, per=1, least=2)],
            bounds="3 texts (thorough 4), samples of 1 or 2, every random draw"),
]
