"""P37: graph files are loaded with every node, edge and attribute."""
import io
import os
import shutil
import tempfile
import warnings

import networkx as nx

from dataprofiler.data_readers.data import Data
from dataprofiler.data_readers.graph_data import GraphData

from ..run import Harness

ASSUMPTIONS = [
    "node names, attributes, column names and layout are picked by the solver from short lists; the "
    "file is written to a scratch directory and read by the real code (pandas' parser included)",
    "attributes are numbers or empty; delimiter and header line are given, or (detected) the file is "
    "a plain comma separated table of at least six rows",
]


def node(text):
    """how a node's cell is read: an integer if it is one, else its text"""
    t = text.strip()
    body = t[1:] if t[:1] in ("+", "-") else t
    if body and all(c in "0123456789" for c in body):
        return int(t)
    return t


def number(text):
    t = text.strip()
    return float(t) if t else None


def expected(rows, names, src, dst):
    g = nx.Graph()
    for r in rows:
        at = {}
        for i, cell in enumerate(r):
            if i in (src, dst) or names is None:
                continue
            v = number(cell)
            if v is not None:
                at[names[i]] = v
        g.add_edge(node(r[src]), node(r[dst]), **at)
    return g


def same_graph(ctx, got, want):
    if not isinstance(got, nx.Graph):
        ctx.fail("no graph")
        return
    kinds = sorted((type(x).__name__, str(x)) for x in got.nodes)
    ctx.check("nodes", kinds == sorted((type(x).__name__, str(x)) for x in want.nodes))
    ctx.check("number of edges", got.number_of_edges() == want.number_of_edges())
    for a, b, at in want.edges(data=True):
        if not got.has_edge(a, b):
            ctx.fail("edge missing")
            return
        ctx.check("attributes", dict(got.edges[a, b]) == dict(at))


def load(ctx, text, how, options):
    d = tempfile.mkdtemp(prefix="vp37_")
    try:
        path = os.path.join(d, "g.csv")
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "text":
                src = io.StringIO(text)
            elif how == "bytes":
                src = io.BytesIO(text.encode("utf-8"))
            else:
                src = path
            return GraphData(src, options=dict(options)).data
    finally:
        shutil.rmtree(d, ignore_errors=True)


IDS = {"int": ["1", "2", "30"], "sign": ["1", "-1", "+2"], "name": ["a", "b c", "7"],
       "mixed": ["1", "x", "-x", "01"]}
WEIGHTS = ["0", "2.5", "-1", ""]
PLACES = [(0, 1), (1, 0), (0, 2), (2, 1), (1, 3), (3, 2)]


def table(ctx, n, ids, width):
    src, dst = ctx.pick("places", [p for p in PLACES if max(p) < width])
    rows = []
    for i in range(n):
        r = []
        for j in range(width):
            if j in (src, dst):
                r.append(ctx.pick("id%d_%d" % (i, j), IDS[ids]))
            else:
                r.append(ctx.pick("w%d_%d" % (i, j), WEIGHTS if i == 0 else WEIGHTS[:2]))
        rows.append(r)
    names = ["w%d" % j for j in range(width)]
    names[src] = ctx.pick("src", ["node_id_src", "origin.node"])
    names[dst] = ctx.pick("dst", ["node_id_dst", "target-node"])
    return rows, names, src, dst


def file_text(rows, names, sep, above=()):
    lines = [sep.join(["above"] * len(names)) for _ in above]
    if names is not None:
        lines.append(sep.join(names))
    lines += [sep.join(r) for r in rows]
    return "\n".join(lines) + "\n"


def tables(ctx, n, ids, width, sep=",", above=0, how="path"):
    rows, names, src, dst = table(ctx, n, ids, width)
    text = file_text(rows, names, sep, range(above))
    got = load(ctx, text, how, dict(delimiter=sep, header=above))
    same_graph(ctx, got, expected(rows, names, src, dst))


def repeats(ctx, n):
    """several rows of one edge, in either direction; later columns with a keyword are attributes"""
    names = ["node_id_src", "node_id_dst", "since_src", "since_dst"]
    if ctx.choose("swap", 2):
        names[:2] = names[1::-1]
    rows = []
    for i in range(n):
        a, b = ctx.pick("ends%d" % i, [("1", "2"), ("2", "1")])
        rows.append([a, b, ctx.pick("w%d" % i, ["3", "5", ""]), ctx.pick("v%d" % i, ["0", "1"])])
    src, dst = names.index("node_id_src"), names.index("node_id_dst")
    got = load(ctx, file_text(rows, names, ","), "path", dict(delimiter=",", header=0))
    same_graph(ctx, got, expected(rows, names, src, dst))


def spaced(ctx, n):
    """spaces around cells and in column names do not count"""
    pad = ctx.pick("pad", ["", " "])
    rows = [[ctx.pick("a%d" % i, ["1", "x"]), pad + ctx.pick("b%d" % i, ["2", "-1", "x"]),
             pad + ctx.pick("w%d" % i, ["3", "0.5"])] for i in range(n)]
    names = ["node_id_src", pad + "node_id_dst", pad + "some weight"]
    got = load(ctx, file_text(rows, names, ","), "path", dict(delimiter=",", header=0))
    same_graph(ctx, got, expected(rows, ["", "", "someweight"], 0, 1))


def positions(ctx, n, named):
    """node columns given by position"""
    src, dst = ctx.pick("places", [(0, 1), (2, 0), (1, 2)])
    rows = [[ctx.pick("c%d_%d" % (i, j), ["1", "2", "4"]) for j in range(3)] for i in range(n)]
    names = ["p", "q", "r"] if named else None
    o = dict(delimiter=",", header=None, source_node=src, destination_node=dst)
    if named:
        o["column_names"] = names
    got = load(ctx, file_text(rows, None, ","), ctx.pick("how", ["path", "text"]), o)
    same_graph(ctx, got, expected(rows, names, src, dst))


def detected(ctx, n):
    """the reader recognises an edge list by its column names"""
    src = ctx.pick("src", ["node_id_src", "source-node", "nodesrc", "src_id"])
    dst = ctx.pick("dst", ["node_id_dst", "node.destination", "to_node", "dst_id"])
    swap = bool(ctx.pick("swap", [0, 1]))
    names = [dst, src, "weight"] if swap else [src, dst, "weight"]
    rows = [[str(1 + (i * 3) % 7), str(2 + (i * 5) % 11), "%d.5" % i] for i in range(n - 1)]
    rows.append([ctx.pick("a", ["8", "3"]), ctx.pick("b", ["8", "40"]), ctx.pick("w", ["7.5", "0.5"])])
    marks = ("_", ".", "-")
    kw = [("source", "src", "origin"), ("target", "destination", "dst"), ("node",)]
    is_graph = all(any(m + k in c or k + m in c for c in names for k in ks for m in marks)
                   for ks in kw)
    text = file_text(rows, names, ",")
    d = tempfile.mkdtemp(prefix="vp37_")
    try:
        path = os.path.join(d, "g.csv")
        with open(path, "w") as f:
            f.write(text)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = {}
            ctx.check("recognised", bool(GraphData.is_match(path, o)) == is_graph)
            data = Data(path)
            ctx.check("reader", isinstance(data, GraphData) == is_graph)
            if not is_graph:
                return
            i, j = (1, 0) if swap else (0, 1)
            ctx.check("node columns", (o["source_node"], o["destination_node"]) == (i, j))
            same_graph(ctx, data.data, expected(rows, names, i, j))
            same_graph(ctx, GraphData(path).data, expected(rows, names, i, j))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def given(ctx, n):
    """a graph handed over is the graph; anything else is refused"""
    g = nx.Graph()
    for i in range(n):
        g.add_edge(ctx.pick("a%d" % i, [1, 2, "x"]), ctx.pick("b%d" % i, [2, 3, "x"]),
                   w=ctx.pick("w%d" % i, [0.0, 1.5]))
    d = GraphData(data=g)
    same_graph(ctx, d.data, g)
    bad = ctx.pick("bad", ["list", "dict", "text"])
    try:
        GraphData(data={"list": [(1, 2)], "dict": {1: [2]}, "text": "1,2"}[bad])
    except ValueError:
        return
    ctx.fail("not a graph, but accepted")


HARNESSES = [
    Harness(tables,
            quick=[dict(n=1, ids=k, width=3) for k in ("int", "sign", "name", "mixed")] +
            [dict(n=2, ids="sign", width=2), dict(n=2, ids="name", width=2),
             dict(n=1, ids="int", width=4), dict(n=1, ids="sign", width=3, sep=";"),
             dict(n=1, ids="name", width=3, sep="\t"), dict(n=1, ids="int", width=3, above=1),
             dict(n=1, ids="name", width=3, above=2),
             dict(n=1, ids="name", width=3, how="text"),
             dict(n=1, ids="sign", width=3, how="bytes")],
            thorough=[dict(n=2, ids=k, width=3) for k in ("int", "sign", "name")],
            bounds="1-2 rows of 2-4 columns, node columns anywhere, ids from 3-4 texts, three "
            "delimiters, header on line 0-2, files and buffers"),
    Harness(repeats, quick=[dict(n=2), dict(n=3)],
            bounds="2-3 rows of one edge, two attributes"),
    Harness(spaced, quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)],
            bounds="1-2 rows with spaces around cells"),
    Harness(positions, quick=[dict(n=1, named=True), dict(n=2, named=False)],
            thorough=[dict(n=2, named=True)], bounds="1-2 rows of 3 columns"),
    Harness(detected, quick=[dict(n=6)], thorough=[dict(n=9)],
            bounds="a table of 6 rows (thorough 9), 16 pairs of column names in both orders"),
    Harness(given, quick=[dict(n=1), dict(n=2)], bounds="graphs of up to 2 edges"),
]
