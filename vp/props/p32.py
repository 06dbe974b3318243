"""P32: table files are read completely and in order."""
import csv
import io
import json
import os
import shutil
import tempfile
import warnings

import fastavro
import pandas as pd
import pyarrow as pa
import pyarrow.parquet as pq

from dataprofiler.data_readers.avro_data import AVROData
from dataprofiler.data_readers.csv_data import CSVData
from dataprofiler.data_readers.data import Data
from dataprofiler.data_readers.parquet_data import ParquetData

from ..run import Harness

ASSUMPTIONS = [
    "delimited files: quoted with double quotes where needed; cells from a short list with "
    "blanks, quotes, delimiters, line ends and null-like words",
    "delimiter and header row are given, except in the harness `guessed`, which covers tables of "
    "words and numbers",
    "files in which every line is one cell and a delimiter are left out (the reader takes them "
    "for one column on purpose)",
    "cells of parquet and Avro files from a short list",
]
NAMES = ["a", "b c", "d"]
DELIMS = [",", "\t", ";", "|"]


def quoted(cell, d):
    if any(c in cell for c in (d, '"', "\n", "\r")):
        return '"%s"' % cell.replace('"', '""')
    return cell


def written(rows, d, end, last):
    lines = [d.join(quoted(c, d) for c in r) for r in rows]
    return end.join(lines) + (end if last else "")


class Place:
    """a scratch directory"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp_")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def put(self, data, name="t.csv"):
        path = os.path.join(self.dir, name)
        with open(path, "wb") as f:
            f.write(data)
        return path


def source(place, how, text, encoding="utf-8"):
    if how == "file":
        return place.put(text.encode(encoding))
    if how == "bytes":
        return io.BytesIO(text.encode(encoding))
    return io.StringIO(text, newline="")


def check_frame(ctx, df, names, rows, tag=""):
    ctx.check(tag + "is a frame", isinstance(df, pd.DataFrame))
    ctx.check(tag + "columns", list(df.columns) == list(names))
    got = [list(r) for r in df.itertuples(index=False, name=None)]
    ctx.check(tag + "rows", got == [list(r) for r in rows])
    ctx.check(tag + "row labels", list(df.index) == list(range(len(rows))))


def table(ctx, nrows, ncols, pool, delims=DELIMS):
    d = ctx.pick("delimiter", delims)
    cells = [x.replace("D", d) for x in pool]
    return d, [[ctx.pick("c%d%d" % (i, j), cells) for j in range(ncols)] for i in range(nrows)]


POOL = ["1", "", "xDy", 'q"q', " s ", "NA"]


def given(ctx, nrows, ncols, pool, how=("file",), delims=DELIMS, ends=("\n",), extra=False):
    """delimiter and header are given as options"""
    d, rows = table(ctx, nrows, ncols, pool, delims)
    header = [None, 0, 1][ctx.choose("header", 3)]
    names = NAMES[:ncols]
    top = [] if header is None else ([["title"] * ncols] * header + [names])
    end = ctx.pick("line end", list(ends))
    text = written(top + rows, d, end, ctx.choose("last line ends", 2) if ncols > 1 else 1)
    if ncols == 1 and header is None:       # blank lines are no rows then
        ctx.assume(all(r[0] for r in rows))
    # such a file is taken for one column with a delimiter too many
    ctx.assume(not all(x.count(d) == 1 and x.endswith(d) for x in text.split(end) if x))
    opts = dict(delimiter=d, header=header, quotechar='"')
    keep = names
    if extra and header is not None and ctx.choose("some columns", 2):
        keep = names[1:]
        opts["selected_columns"] = list(keep)
    with Place() as place:
        src = source(place, how[ctx.choose("source", len(how))], text)
        data = CSVData(src, options=opts)
        if header is None:
            keep = list(range(ncols))
        want = [r[ncols - len(keep):] for r in rows]
        check_frame(ctx, data.data, keep, want)
        ctx.check("length", len(data) == nrows)
        data.data_format = "records"
        lines = data.data
        if not any("\n" in c or "\r" in c for r in rows for c in r):
            back = list(csv.reader(lines, delimiter=d))
            ctx.check("records", back == [[str(k) for k in keep]] + want)
        data.data_format = "dataframe"
        check_frame(ctx, data.data, keep, want, "again: ")


def guessed(ctx, kinds, nrows):
    """delimiter and header row are recognised in tables of words and numbers"""
    d = ctx.pick("delimiter", DELIMS)
    pools = {"n": ["1", "27", "-3.5"], "w": ["red", "blue", "Ann"]}
    rows = [[ctx.pick("c%d%d" % (i, j), pools[k]) if i < 1 else
             pools[k][(i + j) % 3] for j, k in enumerate(kinds)] for i in range(nrows)]
    text = written([NAMES[:1] + ["b"] + NAMES[2:][:len(kinds) - 2]] + rows, d, "\n",
                   ctx.choose("last line ends", 2))
    with Place() as place, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        src = source(place, ["file", "bytes", "text"][ctx.choose("source", 3)], text)
        ctx.check("recognised", CSVData.is_match(src) is True)
        data = CSVData(src)
        check_frame(ctx, data.data, ["a", "b", "d"][:len(kinds)], rows)
        ctx.check("delimiter", data.delimiter == d)
        ctx.check("header", data.header == 0)


def long(ctx, sizes):
    """more lines and longer lines than the reader looks at for guessing"""
    n = sizes[ctx.choose("rows", len(sizes))]
    d = ctx.pick("delimiter", DELIMS[:2])
    at = [None, 0, n // 2, n - 1][ctx.choose("long cell", 4)]
    width = [1022, 5000][ctx.choose("width", 2)]
    rows = [[str(i), "word%d" % (i % 7), "x"] for i in range(n)]
    if at is not None:
        rows[at][1] = "y" * width
    text = written([["a", "b", "d"]] + rows, d, "\n", ctx.choose("last line ends", 2))
    opts = dict(delimiter=d, header=0) if ctx.choose("options", 2) else {}
    with Place() as place:
        src = source(place, ["file", "bytes", "text"][ctx.choose("source", 3)], text)
        check_frame(ctx, CSVData(src, options=opts).data, ["a", "b", "d"], rows)


def reloaded(ctx):
    """a reader that is given another file holds that file"""
    tabs = [[[ctx.pick("%s%d" % (t, j), ["1", "22", "x"]) for j in range(2)]] +
            [["3", "w"], ["4", "v"], ["5", "u"]] for t in "xy"]
    with Place() as place:
        paths = [place.put(written([["a", "b"]] + rows, ",", "\n", True).encode(), "%d.csv" % i)
                 for i, rows in enumerate(tabs)]
        data = CSVData(paths[0], options=dict(delimiter=",", header=0))
        check_frame(ctx, data.data, ["a", "b"], tabs[0])
        if ctx.choose("frame", 2):
            data.reload(data=pd.DataFrame(tabs[1], columns=["a", "b"]))
        else:
            data.reload(paths[1])
        check_frame(ctx, data.data, ["a", "b"], tabs[1], "reloaded: ")


def detected(ctx):
    """Data() picks the reader of the file's format"""
    kind = ctx.pick("kind", ["csv", "json", "parquet", "avro", "text"])
    cells = [ctx.pick("c%d" % i, ["1", "x"]) for i in range(2)]
    rows = [[c, str(i)] for i, c in enumerate(cells + ["7", "y", "z", "8"])]
    recs = [dict(k=a, v=b) for a, b in rows]
    buf = io.BytesIO()
    if kind == "csv":
        buf.write(written([["k", "v"]] + rows, ",", "\n", True).encode())
    elif kind == "json":
        buf.write(json.dumps(recs).encode() if ctx.choose("lines", 2) == 0 else
                  "\n".join(json.dumps(r) for r in recs).encode())
    elif kind == "parquet":
        pq.write_table(pa.table({k: [r[k] for r in recs] for k in ("k", "v")}), buf)
    elif kind == "avro":
        fastavro.writer(buf, fastavro.parse_schema({
            "name": "top", "type": "record", "fields": [
                {"name": n, "type": ["string", "null"]} for n in ("k", "v")]}), recs)
    else:
        buf.write(("Once upon a time %s.\nThere was, it is said, %s!\n" % tuple(cells)).encode())
    with Place() as place:
        if ctx.choose("source", 2):
            src = place.put(buf.getvalue(), "file")
        else:
            src = io.BytesIO(buf.getvalue())
        data = Data(src)
        ctx.check("format", data.data_type == kind)
        if kind == "text":
            ctx.check("text", "".join(data.data) == buf.getvalue().decode())
        else:
            df = data.data
            ctx.check("cells", [[str(x) for x in df[k]] for k in ("k", "v")] ==
                      [[r[k] for r in recs] for k in ("k", "v")])


def encodings(ctx, nrows):
    """given encodings"""
    enc = ctx.pick("encoding", ["utf-8", "utf-16", "utf-32", "latin-1"])
    rows = [[ctx.pick("c%d%d" % (i, j), ["\u00e9", "x", ""]) for j in range(2)]
            for i in range(nrows)]
    text = written([["k", "\u00fc"]] + rows, ",", "\n", ctx.choose("last line ends", 2))
    with Place() as place:
        src = source(place, ["file", "bytes"][ctx.choose("source", 2)], text, enc)
        data = CSVData(src, options=dict(delimiter=",", header=0, encoding=enc, quotechar='"'))
        check_frame(ctx, data.data, ["k", "\u00fc"], rows)
        ctx.check("encoding", data.file_encoding == enc)


def parquet(ctx, nrows, group):
    """rows of all row groups, numbers and texts as text"""
    xs = [ctx.pick("n%d" % i, [1, -20, 300]) for i in range(nrows)]
    ts = [ctx.pick("t%d" % i, ["x", "", "\u00e9 y"]) for i in range(nrows)]
    with Place() as place:
        path = os.path.join(place.dir, "t.parquet")
        pq.write_table(pa.table({"n": xs, "t": ts}), path, row_group_size=group)
        ctx.check("recognised", ParquetData.is_match(path) is True)
        keep = [["n", "t"], ["t"], ["t", "n"]][ctx.choose("columns", 3)]
        opts = {} if keep == ["n", "t"] else dict(selected_columns=keep)
        data = ParquetData(path, options=opts)
        full = {"n": [str(x) for x in xs], "t": ts}
        df = data.data
        ctx.check("columns", list(df.columns) == keep)
        for k in keep:
            ctx.check("cells of " + k, list(df[k]) == full[k])
        ctx.check("length", len(data) == nrows)


def avro(ctx, nrows):
    """records of an Avro file, nested records flattened"""
    recs = []
    for i in range(nrows):
        r = {"n": ctx.pick("n%d" % i, ["1", "", None]),
             "o": {"p": ctx.pick("p%d" % i, ["x", "y z", None])}}
        recs.append(r)
    schema = {"name": "top", "type": "record", "fields": [
        {"name": "n", "type": ["string", "null"]},
        {"name": "o", "type": {"name": "o", "type": "record", "fields": [
            {"name": "p", "type": ["string", "null"]}]}}]}
    with Place() as place:
        path = os.path.join(place.dir, "t.avro")
        with open(path, "wb") as f:
            fastavro.writer(f, fastavro.parse_schema(schema), recs)
        ctx.check("recognised", AVROData.is_match(path) is True)
        data = AVROData(path)
        df = data.data
        ctx.check("columns", sorted(df.columns) == ["n", "o.p"])
        for name, vals in (("n", [r["n"] for r in recs]), ("o.p", [r["o"]["p"] for r in recs])):
            got = [None if pd.isnull(x) or x in ("nan", "None") else x for x in df[name]]
            ctx.check("cells of " + name, got == vals)
        ctx.check("length", len(data) == nrows)


HARNESSES = [
    Harness(given, quick=[dict(nrows=2, ncols=2, pool=["", "xDy", 'q"q']),
                          dict(nrows=1, ncols=2, pool=POOL, ends=("\n", "\r\n"),
                               how=("file", "bytes", "text"), delims=[",", "|"]),
                          dict(nrows=1, ncols=3, pool=["1", "", "xDy"], extra=True),
                          dict(nrows=2, ncols=2, pool=["l\nm", "", "1"], delims=[","]),
                          dict(nrows=3, ncols=1, pool=["1", "", "x y"], delims=[",", "|"],
                               how=("file", "text"))],
            thorough=[dict(nrows=2, ncols=2, pool=POOL),
                      dict(nrows=3, ncols=2, pool=["1", "", 'q"D'], delims=[",", "\t"]),
                      dict(nrows=2, ncols=3, pool=["", "xDy"], extra=True)],
            bounds="up to 3 rows of up to 3 columns, 4 delimiters, header in the first or second "
                   "line or none, files and buffers"),
    Harness(guessed, quick=[dict(kinds="nw", nrows=4), dict(kinds="wnn", nrows=4)],
            thorough=[dict(kinds="nnw", nrows=5), dict(kinds="nww", nrows=4)],
            bounds="tables of 2-3 columns of words and numbers, at least one of numbers; 4-5 rows"),
    Harness(long, quick=[dict(sizes=[9, 10, 60])], thorough=[dict(sizes=[5, 11, 25, 1000])],
            bounds="files of the listed numbers of lines, with one long cell"),
    Harness(reloaded, quick=[dict()], bounds="two files of 4 rows"),
    Harness(detected, quick=[dict()], bounds="one file of 6 rows per format"),
    Harness(encodings, quick=[dict(nrows=2)], bounds="2 rows of 2 columns, 4 encodings"),
    Harness(parquet, quick=[dict(nrows=2, group=1), dict(nrows=2, group=2)],
            thorough=[dict(nrows=3, group=2)], bounds="2 (thorough 3) rows, 1-2 row groups"),
    Harness(avro, quick=[dict(nrows=2)], thorough=[dict(nrows=3)], bounds="2 (3) records"),
]
