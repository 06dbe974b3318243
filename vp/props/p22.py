"""P22: flattening JSON keeps every leaf under its key path; chunking loses nothing."""
import json

import numpy as np
import pandas as pd

from dataprofiler.data_readers.csv_data import CSVData
from dataprofiler.data_readers.json_data import JSONData
from dataprofiler.data_readers.parquet_data import ParquetData
from dataprofiler.data_readers.text_data import TextData

from ..run import Harness

ASSUMPTIONS = [
    "keys are not empty and do not contain the separator; a list that is not all objects (and, "
    "within a record of a list, any list) is one cell holding its text",
    "leaf values are texts, small integers and null; integers may be shown as 4.0 next to "
    "missing cells",
    "cells without line breaks for records of CSV data",
]


class Doc:
    """a document built from solver choices; leaves are all different"""

    def __init__(self, ctx, keys=("a", "b"), lists=True, ints=False):
        self.ctx, self.keys, self.lists, self.n, self.ints = ctx, keys, lists, 0, ints

    def leaf(self):
        self.n += 1
        return self.n if self.ints else "v%d" % self.n

    def node(self, name, depth, kinds=None):
        kinds = kinds or ["leaf"] + (["dict"] + (["list", "mixed"] if self.lists else [])
                                     if depth > 0 else [])
        kind = kinds[0] if len(kinds) == 1 else self.ctx.pick(name, kinds)
        if kind == "leaf":
            return self.leaf()
        if kind == "dict":
            out = {}
            for k in self.keys:
                if self.ctx.choose("%s.%s" % (name, k), 2):
                    out[k] = self.node("%s.%s_" % (name, k), depth - 1)
            return out
        n = 1 + self.ctx.choose(name + "#", 2)
        if kind == "mixed":
            return [self.leaf()] + [{"a": self.leaf()}] * (n - 1)
        return [self.node("%s[%d]" % (name, i), depth - 1, ["dict"]) for i in range(n)]


def leaves(doc, sep, path="", records=False):
    """(key path, value) of every leaf in document order"""
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from leaves(v, sep, path + sep + k if path else k, records)
    elif isinstance(doc, list) and not records and all(isinstance(x, dict) for x in doc):
        for x in doc:
            yield from leaves(x, sep, path)
    else:
        yield path, doc


def same(got, want):
    if isinstance(want, int):
        return got in (str(want), "%d.0" % want)
    return got == str(want)


def columns(frames):
    """non-missing cells by column"""
    out = {}
    for f in frames:
        if f is None:
            continue
        for c in f.columns:
            vals = [v for v in f[c] if v != "nan"]
            if vals:
                out.setdefault(c, []).extend(vals)
    return out


def compare(ctx, got, want):
    cols = {}
    for p, v in want:
        cols.setdefault(p, []).append(v)
    ctx.check("columns are the key paths", set(got) == set(cols))
    for p, vals in cols.items():
        g = got.get(p, [])
        ctx.check("every leaf once", len(g) == len(vals))
        ctx.check("values in document order", all(same(a, b) for a, b in zip(g, vals)))


def load(text, **options):
    return JSONData(data=text, options=options)


def documents(ctx, depth, keys=("a", "b"), sep=".", lists=True, ints=False):
    doc = Doc(ctx, keys, lists, ints).node("r", depth, ["dict"])
    if not list(leaves(doc, sep)):
        return
    d = load(json.dumps(doc), key_separator=sep)
    compare(ctx, columns([d.data]), list(leaves(doc, sep)))


def payloads(ctx, kinds, sep=".", depth=1):
    """documents with payload keys: data and metadata together hold every leaf"""
    b = Doc(ctx)
    doc, want = {}, []
    for k in ("data", "payload", "x"):
        kind = ctx.pick(k, ["none"] + list(kinds))
        if kind == "none":
            continue
        if kind == "records":
            n = 1 + ctx.choose(k + "#", 2)
            doc[k] = [dict(a=b.leaf(), b=dict(c=b.leaf())) if ctx.choose("%s%d" % (k, i), 2)
                      else dict(a=b.leaf()) for i in range(n)]
        elif kind == "empty":
            doc[k] = []
        else:
            doc[k] = b.node(k + "_", depth, [kind])
    d = load(json.dumps(doc), key_separator=sep)
    frame = d.data
    meta = d._metadata
    compare(ctx, columns([frame, meta]), list(leaves(doc, sep)))
    rows = {k: doc[k] for k in ("data", "payload") if isinstance(doc.get(k), list) and doc[k]}
    if rows and not any(isinstance(doc.get(k), dict) for k in ("data", "payload")):
        best = max(map(len, rows.values()))
        ctx.check("the longest payload is the data", len(frame) == best)
        key = [k for k in rows if any(c.startswith(k + sep) for c in frame.columns)]
        ctx.check("one payload", len(key) == 1 and len(rows[key[0]]) == best)
        if len(key) == 1:
            aligned(ctx, frame, [{key[0]: r} for r in rows[key[0]]], sep)


def aligned(ctx, frame, records, sep):
    ctx.check("one row per record", len(frame) == len(records))
    if len(frame) != len(records):
        return
    for i, r in enumerate(records):
        want = dict(leaves(r, sep, records=True))
        row = frame.iloc[i]
        for c in frame.columns:
            if c in want:
                ctx.check("cell of its record", same(row[c], want[c]))
            else:
                ctx.check("missing cell", row[c] == "nan")
        ctx.check("no cell lost", set(want) <= set(frame.columns))


def records(ctx, n, depth, sep=".", lists=False, keys=("a", "b"), ints=False, fmt=None):
    """lists of objects, as one document or line by line: row i is record i"""
    b = Doc(ctx, keys, lists, ints)
    docs = [b.node("r%d" % i, depth, ["dict"]) for i in range(n)]
    if not any(list(leaves(d, sep, records=True)) for d in docs):
        return
    lines = not lists and n > 1 and bool(ctx.choose("lines", 2))
    text = json.dumps(docs)
    if lines:
        text = "\n".join(json.dumps(d) for d in docs)
    aligned(ctx, load(text, key_separator=sep).data, docs, sep)


def odd_lines(ctx, n):
    """blank and malformed lines among the JSON lines"""
    lines, want = [], []
    for i in range(n):
        k = ctx.pick("l%d" % i, ["good", "", "{oops", "other"])
        if k in ("good", "other"):
            rec = {"a": "v%d" % i} if k == "good" else {"b": {"c": "w%d" % i}}
            want.append(rec)
            lines.append(json.dumps(rec))
        else:
            lines.append(k)
    if len(want) < 2:
        return
    aligned(ctx, load("\n".join(lines)).data, want, ".")


def selected(ctx, keys=("a", "b", "c")):
    """selected keys: exactly those columns, the cells stay the same"""
    recs = [{k: "%s%d" % (k, i) for k in keys} for i in range(2)]
    pick = [k for k in keys if ctx.choose(k, 2)]
    if not pick:
        return
    shape = ctx.pick("shape", ["list", "payload", "lines"])
    doc = json.dumps(recs) if shape == "list" else "\n".join(map(json.dumps, recs))
    if shape == "payload":
        doc = json.dumps({"data": recs, "x": "m"})
    d = load(doc, selected_keys=pick)
    pre = "data." if shape == "payload" else ""
    ctx.check("selected columns", list(d.data.columns) == [pre + k for k in pick])
    for k in pick:
        if pre + k in d.data.columns:
            ctx.check("cells", list(d.data[pre + k]) == ["%s%d" % (k, i) for i in range(2)])


def rows_of(ctx, n):
    return [{"a": "x%d" % i, "b": "y%d" % i} for i in range(n)]


def record_lines(ctx, top, reader):
    """records are split into lines of k records each without loss"""
    n, k = ctx.choose("n", top + 1), 1 + ctx.choose("k", top + 1)
    recs = rows_of(ctx, n)
    frame = pd.DataFrame(recs, columns=["a", "b"])
    if reader == "json":
        d = JSONData(data=frame, options={"data_format": "records"})
        want = [json.dumps(r) for r in recs]
    elif reader == "parquet":
        d = ParquetData(data=frame, options={"data_format": "records"})
        want = [json.dumps(r, separators=(",", ":")) for r in recs]
    else:
        d = CSVData(data=frame, options={"data_format": "records", "record_samples_per_line": k})
        want = ["a,b"] + ["%s,%s" % (r["a"], r["b"]) for r in recs]
    d.SAMPLES_PER_LINE_DEFAULT = k
    got = d.data
    flat = [line for chunk in got for line in chunk.split("\n")]
    if reader != "csv":
        ctx.check("records", [json.loads(x) for x in flat if x] == [json.loads(x) for x in want])
    else:
        ctx.check("records", flat == want)
    ctx.check("lines of k records", all(len(c.split("\n")) == k for c in got[:-1]))


def json_lines(ctx, top, reader):
    """the JSON text is split without losing characters"""
    n, k = ctx.choose("n", 2), 1 + ctx.choose("k", top)
    cls = JSONData if reader == "json" else ParquetData
    recs = rows_of(ctx, n)
    d = cls(data=pd.DataFrame(recs, columns=["a", "b"]), options={"data_format": "json"})
    d.SAMPLES_PER_LINE_DEFAULT = k
    try:
        got = json.loads("".join(d.data))
    except ValueError:
        got = None
    ctx.check("no character lost", got == recs)


def nested_records(ctx, n, depth, keys=("a", "b")):
    """records of nested data hold the same leaves again"""
    b = Doc(ctx, keys, lists=False)
    docs = [b.node("r%d" % i, depth, ["dict"]) for i in range(n)]
    want = [dict(leaves(d, ".")) for d in docs]
    if not any(want):
        return
    d = load(json.dumps(docs), data_format="records")
    got = [json.loads(x) for chunk in d.data for x in chunk.split("\n")]
    ctx.check("one record each", len(got) == n)
    for g, w in zip(got, want):
        flat = {p: v for p, v in leaves(g, ".") if v != "nan"}
        ctx.check("leaves of the record", flat == w)


def text_lines(ctx, top):
    n, k = ctx.choose("n", top + 1), 1 + ctx.choose("k", top + 1)
    text = "".join("ab\nc d"[i % 6] for i in range(n))
    d = TextData(data=text, options={"samples_per_line": k})
    got = d.data
    ctx.check("no character lost", "".join(got) == text)
    ctx.check("line length", all(len(x) == k for x in got[:-1]) and all(0 < len(x) <= k for x in got))
    cut = ctx.choose("cut", n + 1)
    got = d._get_data_as_text([text[:cut], text[cut:]])
    ctx.check("list of texts", "".join(got) == text)


def batches(ctx, n, kind):
    """every record is in exactly one batch, whatever the random order"""
    size = 1 + ctx.choose("size", n + 1)
    frame = pd.DataFrame({"a": ["x%d" % i for i in range(n)]})
    d = JSONData(data=frame)
    if kind == "list":
        d = TextData(data="".join("abcdef"[i] for i in range(n)), options={"samples_per_line": 1})
    real = np.random.permutation

    def permutation(m):
        left, out = list(range(m)), []
        for i in range(m):
            out.append(left.pop(ctx.choose("p%d" % i, len(left))) if len(left) > 1 else left.pop())
        return np.array(out, dtype=int)

    np.random.permutation = permutation
    try:
        got = list(d.get_batch_generator(size))
    finally:
        np.random.permutation = real
    vals = [v for b in got for v in (b["a"] if kind != "list" else b)]
    want = list(frame["a"]) if kind != "list" else list("abcdef"[:n])
    ctx.check("every record once", sorted(vals) == want)
    ctx.check("batch sizes", all(len(b) == size for b in got[:-1]) and
              all(0 < len(b) <= size for b in got))


HARNESSES = [
    Harness(documents, quick=[dict(depth=2), dict(depth=3, keys=("a",)),
                              dict(depth=2, sep="__", keys=("a", "b")),
                              dict(depth=2, keys=("a", "b"), lists=False, ints=True)],
            thorough=[dict(depth=3, lists=False, keys=("a", "b")), dict(depth=4, keys=("a",))],
            bounds="documents of up to 3 levels (thorough 4), up to 2 keys and list items"),
    Harness(payloads, quick=[dict(kinds=["leaf", "records"]), dict(kinds=["dict", "empty"]),
                             dict(kinds=["records"], sep="/")],
            thorough=[dict(kinds=["leaf", "records", "dict", "empty"])],
            bounds="two payload keys and another key, up to 2 records each"),
    Harness(records, quick=[dict(n=2, depth=2), dict(n=3, depth=1),
                            dict(n=2, depth=2, sep="/", keys=("a",)),
                            dict(n=2, depth=2, keys=("a",), ints=True),
                            dict(n=2, depth=2, lists=True, keys=("a",))],
            thorough=[dict(n=3, depth=2, keys=("a",), lists=True), dict(n=2, depth=3, keys=("a",))],
            bounds="up to 3 records of up to 2 levels (thorough 3)"),
    Harness(odd_lines, quick=[dict(n=4)], thorough=[dict(n=5)], bounds="4 (thorough 5) lines"),
    Harness(selected, quick=[dict()], bounds="subsets of 3 keys"),
    Harness(record_lines, quick=[dict(top=4, reader=r) for r in ("json", "parquet", "csv")],
            thorough=[dict(top=9, reader=r) for r in ("json", "parquet", "csv")],
            bounds="up to 4 (thorough 9) records, any line size"),
    Harness(json_lines, quick=[dict(top=24, reader=r) for r in ("json", "parquet")],
            bounds="line sizes up to 24 characters"),
    Harness(nested_records, quick=[dict(n=2, depth=2), dict(n=2, depth=3, keys=("a",)),
                                   dict(n=1, depth=2)],
            thorough=[dict(n=1, depth=3), dict(n=3, depth=3, keys=("a",))], bounds="up to 2 records of 2 levels (thorough 3)"),
    Harness(text_lines, quick=[dict(top=6)], thorough=[dict(top=14)],
            bounds="texts of up to 6 (thorough 14) characters, any line size"),
    Harness(batches, quick=[dict(n=n, kind=k) for n in (0, 1, 4) for k in ("frame", "list")],
            thorough=[dict(n=5, kind="frame")], bounds="4 (thorough 5) records in every order"),
]
