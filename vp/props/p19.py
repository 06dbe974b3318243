"""P19: word and character counts of text data."""
import string
from collections import Counter

import pandas as pd

from dataprofiler.profilers.profile_builder import UnstructuredProfiler
from dataprofiler.profilers.profiler_options import ProfilerOptions, TextProfilerOptions
from dataprofiler.profilers.unstructured_text_profile import TextProfiler

from ..run import Harness

ASSUMPTIONS = [
    "a word is a whitespace separated token without the punctuation around it; stop words are "
    "given in lower case and match any capitalisation",
    "the symbolic counts of `counters` are those of words no stop word list contains",
]


def options(case=True, stop=None, words=None, chars=None):
    return TextProfilerOptions(is_case_sensitive=case, stop_words=stop, top_k_words=words,
                               top_k_chars=chars)


def words_of(texts, case, stop):
    c = Counter()
    for t in texts:
        for w in t.split():
            w = w.strip(string.punctuation)
            if w and w.lower() not in stop:
                c[w if case else w.lower()] += 1
    return c


def compare(ctx, p, texts, case, stop, wk=None, ck=None):
    rep = p.profile
    w, v = words_of(texts, case, stop), Counter("".join(texts))
    top(ctx, "word", rep["words"], rep["word_count"], w, wk)
    top(ctx, "character", rep["vocab"], rep["vocab_count"], v, ck)
    ctx.check_eq("texts", p.sample_size, len(texts))


def top(ctx, what, every, counts, want, k):
    ctx.check(what + "s listed once", len(set(every)) == len(every))
    ctx.check("every " + what, set(every) == set(want))
    k = len(want) if k is None else min(k, len(want))
    ctx.check_eq("number of reported %s counts" % what, len(counts), k)
    for w, c in counts.items():
        ctx.check_eq(what + " count", c, want[w])
    if counts:
        low = ctx.min(list(counts.values()))
        for w in want:
            if w not in counts:
                ctx.check_le("reported %ss are the most frequent" % what, want[w], low)


def text(ctx, name, n, alphabet):
    return "".join(ctx.pick("%s%d" % (name, i), list(alphabet)) for i in range(n))


def batches(ctx, sizes, alphabet, cuts=(), case=True, stop=None, wk=None, ck=None):
    texts = [text(ctx, "t%d_" % i, n, alphabet) for i, n in enumerate(sizes)]
    p = TextProfiler("t", options(case, stop, wk, ck))
    edges = [0] + list(cuts) + [len(texts)]
    for a, b in zip(edges, edges[1:]):
        p.update(pd.Series(texts[a:b], dtype=object))
    compare(ctx, p, texts, case, set(p._stop_words if stop is None else stop), wk, ck)


def merges(ctx, sizes, alphabet, cut, cases=(True, True), stops=([], []), ks=(None, None)):
    texts = [text(ctx, "t%d_" % i, n, alphabet) for i, n in enumerate(sizes)]
    a, b = (TextProfiler("t", options(c, s, k, k)) for c, s, k in zip(cases, stops, ks))
    a.update(pd.Series(texts[:cut], dtype=object))
    b.update(pd.Series(texts[cut:], dtype=object))
    case, stop = all(cases), set(stops[0]) | set(stops[1])
    k = max(ks) if all(ks) else None
    m = a + b
    compare(ctx, m, texts, case, stop, k, k)
    compare(ctx, b + a, texts, case, stop, k, k)
    more = [texts[0]]
    m.update(pd.Series(more, dtype=object))
    compare(ctx, m, texts + more, case, stop, k, k)
    compare(ctx, a, texts[:cut], cases[0], set(stops[0]), ks[0], ks[0])
    compare(ctx, b, texts[cut:], cases[1], set(stops[1]), ks[1], ks[1])


def profiler(ctx, sizes, alphabet, cut, merge):
    """through the profiler: texts of white space only are not profiled"""
    texts = [text(ctx, "t%d_" % i, n, alphabet) for i, n in enumerate(sizes)]
    o = ProfilerOptions()
    o.unstructured_options.data_labeler.is_enabled = False
    o.unstructured_options.text.stop_words = ["b"]

    def prof(data):
        # a profile of no data is only known by its first update
        return UnstructuredProfiler(pd.Series(data, dtype=object), options=o, min_true_samples=0)
    p = prof(texts[:cut])
    if merge:
        p = p + prof(texts[cut:])
    else:
        p.update_profile(pd.Series(texts[cut:], dtype=object))
    rep = p.report()["data_stats"]["statistics"]
    real = [t for t in texts if t.strip()]
    top(ctx, "word", rep.get("words", []), rep.get("word_count", {}), words_of(real, True, {"b"}),
        None)
    top(ctx, "character", rep.get("vocab", []), rep.get("vocab_count", {}), Counter("".join(real)),
        None)


def counters(ctx, left, right, ks=(None, None), cases=(True, True)):
    """merging profiles with any counts"""
    ps, sums = [], []
    for side, names, k, c in zip("ab", (left, right), ks, cases):
        p = TextProfiler("t", options(c, [], k, k))
        for n in names:
            p.word_count[n] = ctx.int("w%s_%s" % (side, n), lo=1)
            p.vocab_count[n] = ctx.int("v%s_%s" % (side, n), lo=1)
        p.sample_size = ctx.int("n" + side, lo=1)
        ps.append(p)
        sums.append((dict(p.word_count), dict(p.vocab_count)))
    m = ps[0] + ps[1]
    k = max(ks) if all(ks) else None
    rep = m.profile
    case = all(cases)
    for what, key, every, j in (("word", "word_count", "words", 0),
                                ("character", "vocab_count", "vocab", 1)):
        want = {}
        for s in sums:
            for n, c in s[j].items():
                n = n if case or j else n.lower()
                want[n] = want.get(n, 0) + c
        top(ctx, what, rep[every], rep[key], want, k)
    ctx.check_eq("texts", m.sample_size, ps[0].sample_size + ps[1].sample_size)
    if not any(ks):
        differences(ctx, ps[0].diff(ps[1]), sums, case or cases[0] == cases[1])


def differences(ctx, d, sums, case):
    for j, listed, counted in ((0, "words", "word_count"), (1, "vocab", "vocab_count")):
        a, b = {}, {}
        for s, out in zip(sums, (a, b)):
            for n, c in s[j].items():
                n = n if case or j else n.lower()
                out[n] = out.get(n, 0) + c
        left, both, right = set(a) - set(b), set(a) & set(b), set(b) - set(a)
        got = d[listed]
        if not left and not right:
            ctx.check("listed differences", got == "unchanged")
        else:
            ctx.check("listed differences", got != "unchanged" and [sorted(x) for x in got] == [
                sorted(left), sorted(both), sorted(right)])
        got = d[counted]
        if not a and not b:
            ctx.check("no differences", got == "unchanged")
            continue
        ctx.check("counted differences", len(got) == 3 and (
            set(got[0]), set(got[1]), set(got[2])) == (left, both, right))
        for n in left:
            ctx.check_eq("only left", got[0][n], a[n])
        for n in right:
            ctx.check_eq("only right", got[2][n], b[n])
        for n in both:
            if isinstance(got[1][n], str):
                ctx.check_eq("unchanged", a[n], b[n])
            else:
                ctx.check_eq("difference", got[1][n], a[n] - b[n])
                ctx.check("a difference", a[n] != b[n])


AB = "aB ."
HARNESSES = [
    Harness(batches, quick=[
        dict(sizes=[4], alphabet=AB), dict(sizes=[2, 2], alphabet=AB, cuts=[1]),
        dict(sizes=[3], alphabet="aAb .\n", case=False, stop=["b"]),
        dict(sizes=[2, 2], alphabet="aAb ", stop=["a"], cuts=[1]),
        dict(sizes=[4], alphabet="ab ", stop=["ab"], wk=1, ck=1),
        dict(sizes=[5], alphabet="ab '"),
        dict(sizes=[1, 1, 1], alphabet="aAb", case=False, cuts=[1, 2], stop=[], wk=2, ck=2),
        dict(sizes=[4], alphabet="abT "), dict(sizes=[3], alphabet="a.,!\t"),
        dict(sizes=[0, 2], alphabet="ab "), dict(sizes=[1, 0, 1], alphabet="ab", cuts=[1])],
        thorough=[dict(sizes=[5], alphabet="aAb .", case=c, stop=["a"]) for c in (True, False)] +
        [dict(sizes=[2, 2, 1], alphabet="aAb .", cuts=[1, 2], stop=["b"], wk=2, ck=2)],
        bounds="up to 3 texts with together up to 5 characters of a small alphabet of letters, "
        "white space and punctuation; up to 3 batches"),
    Harness(merges, quick=[
        dict(sizes=[2, 2], alphabet="aAb ", cut=1), dict(sizes=[1, 1, 1], alphabet="aAb", cut=2),
        dict(sizes=[2, 2], alphabet="abA", cut=1, stops=(["a"], ["b"])),
        dict(sizes=[1, 2], alphabet="abA ", cut=1, stops=(["a", "b"], ["b"])),
        dict(sizes=[2, 1], alphabet="abA ", cut=1, stops=(["a"], ["a", "b"])),
        dict(sizes=[2, 2], alphabet="abA", cut=1, cases=(True, False)),
        dict(sizes=[2, 2], alphabet="aAB", cut=1, cases=(False, True), stops=(["a"], [])),
        dict(sizes=[1, 1, 1, 1], alphabet="abc", cut=2, ks=(1, 2)),
        dict(sizes=[1, 1, 1], alphabet="abc", cut=1, ks=(None, 1)),
        dict(sizes=[3], alphabet="aA ", cut=0), dict(sizes=[3], alphabet="aA ", cut=1)],
        thorough=[dict(sizes=[2, 3], alphabet="aAb ", cut=1, stops=s) for s in (
            (["a"], ["b"]), (["a", "b"], ["a"]))],
        bounds="two operands with together up to 4 characters (thorough 5)"),
    Harness(profiler, quick=[dict(sizes=[2, 2], alphabet="ab ", cut=1, merge=m)
                             for m in (False, True)],
            thorough=[dict(sizes=[2, 2, 1], alphabet="abA ", cut=1, merge=m)
                      for m in (False, True)],
            bounds="2 texts of 2 characters"),
    Harness(counters, quick=[dict(left=["x", "Y"], right=["x", "z"]),
                             dict(left=["x", "y"], right=["y", "z"], ks=(1, 2)),
                             dict(left=["x", "X"], right=["x"], cases=(True, False)),
                             dict(left=["x"], right=["X", "Y"], cases=(False, True)),
                             dict(left=["x"], right=["X"]),
                             dict(left=[], right=["x"]), dict(left=["x"], right=[])],
            thorough=[dict(left=["x", "y", "z"], right=["u", "x", "v"], ks=(2, 3))],
            bounds="up to 2 words and characters per operand (thorough 3) with any counts"),
]
