"""P26: graph profiles report true graph measures."""
import types

import networkx as nx
import numpy as np

from dataprofiler.profilers import graph_profiler as G

from ..run import Harness

ASSUMPTIONS = [
    "edge attributes are numbers; an attribute is categorical when one of its values is integral",
    "the largest component is one with the most nodes, its size the number of its edges",
    "`best_fit`: the fits of the six candidate distributions and their negative log likelihoods "
    "are any numbers (scipy is not encoded)",
]


class fits:
    """the candidate distributions as oracles: fit and likelihood are inputs"""

    def __init__(self, ctx, names, nll=None):
        self.ctx, self.nll = ctx, nll
        self.st = types.SimpleNamespace(**{n: self.dist(n) for n in names})

    def dist(self, name):
        def fit(data, *a, **k):
            key = tuple(data)
            return (name, key)

        def nnlf(params, data):
            return self.nll[name, params[1]] if self.nll else 0.0

        def stats(*a, **k):
            return [name], [name], [name], [name]
        return types.SimpleNamespace(name=name, fit=fit, nnlf=nnlf, stats=stats)

    def __enter__(self):
        self.old = G.st
        G.st = self.st

    def __exit__(self, *a):
        G.st = self.old


DISTS = ["norm", "uniform", "expon", "logistic", "lognorm", "gamma"]


def best_fit(ctx, attributes, edges):
    g, nll, data = nx.Graph(), {}, {}
    for e in range(edges):
        g.add_edge(e, e + 1, **{a: 0.5 + i + 4 * e for i, a in enumerate(attributes)})
    for i, a in enumerate(attributes):
        data[a] = tuple(0.5 + i + 4 * e for e in range(edges))
        for d in DISTS:
            nll[d, data[a]] = ctx.real("nll_%s_%s" % (d, a), -10000, 10000)
    p = G.GraphProfiler("g")
    with fits(ctx, DISTS, nll):
        out = p._get_continuous_distribution(g, list(attributes))
    ctx.check("every attribute", set(out) == set(attributes))
    for a in attributes:
        name = out[a]["name"]
        got = nll[name, data[a]]
        for d in DISTS:
            ctx.check_le("the best fit has the smallest negative log likelihood", got,
                         nll[d, data[a]])
        ctx.check_eq("its likelihood", out[a]["scale"], got)
        ctx.check("its parameters", list(out[a]["properties"]["best_fit_properties"]) ==
                  [name, data[a]])
        ctx.check("its moments", all(list(out[a]["properties"][k]) == [name] for k in (
            "mean", "variance", "skew", "kurtosis")))


def large(ctx, edges, scale):
    """the same through scipy itself: likelihoods grow with the number of edges"""
    g = nx.Graph()
    step = ctx.pick("step", [1.0, 7.0])
    xs = [(0.5 + step * (e * 37 % edges)) * scale + 0.25 for e in range(edges)]
    for e, x in enumerate(xs):
        g.add_edge(e, e + 1, w=x)
    p = G.GraphProfiler("g")
    with np.errstate(all="ignore"):
        out = p._get_continuous_distribution(g, ["w"])["w"]
        norm = G.st.norm.nnlf(G.st.norm.fit(xs), np.array(xs))
    ctx.check("a candidate", out["name"] in DISTS)
    ctx.check_le("not worse than the normal distribution", float(out["scale"]), float(norm))


def graph(ctx, nodes, attrs, loops, values, optional, most):
    g = nx.Graph()
    g.add_nodes_from(range(nodes))
    pairs = [(i, j) for i in range(nodes) for j in range(i + (0 if loops else 1), nodes)]
    edges = []
    for i, j in pairs:
        if len(edges) < most and ctx.choose("e%d_%d" % (i, j), 2):
            d = {}
            for a in attrs:
                if optional and ctx.choose("has%d_%d%s" % (i, j, a), 2) == 0:
                    continue
                d[a] = ctx.pick("v%d_%d%s" % (i, j, a), values)
            edges.append((i, j, d))
            g.add_edge(i, j, **d)
    return g, edges


SHAPES = {
    "one": (1, []), "loop": (1, [(0, 0)]), "pair": (2, [(0, 1)]),
    "looped pair": (2, [(0, 0), (0, 1), (1, 1)]), "path": (3, [(0, 1), (1, 2)]),
    "triangle": (3, [(0, 1), (1, 2), (0, 2)]), "long path": (4, [(0, 1), (1, 2), (2, 3)]),
    "clique": (4, [(i, j) for i in range(4) for j in range(i + 1, 4)]),
    "longer path": (5, [(i, i + 1) for i in range(4)]),
}


def union(ctx, parts):
    """a graph of components of given shapes: most nodes is not most edges"""
    g, edges, at = nx.Graph(), [], 0
    for k in range(parts):
        n, es = SHAPES[ctx.pick("shape%d" % k, list(SHAPES))]
        g.add_nodes_from(range(at, at + n))
        edges += [(at + i, at + j, {}) for i, j in es]
        at += n
    g.add_edges_from((i, j) for i, j, _ in edges)
    return g, edges, at


def measures(ctx, nodes=0, attrs=(), loops=False, values=(1,), optional=False, most=9, data=False,
             parts=0):
    if parts:
        g, edges, nodes = union(ctx, parts)
    else:
        g, edges = graph(ctx, nodes, attrs, loops, list(values), optional, most)
    p = G.GraphProfiler("g")
    with fits(ctx, DISTS):  # the fits are judged by best_fit
        p.update(g)
    rep = p.report()
    ctx.check_eq("nodes", rep["num_nodes"], nodes)
    ctx.check_eq("edges", rep["num_edges"], len(edges))
    ctx.check_eq("average degree", rep["avg_node_degree"], 2 * len(edges) / nodes)
    comp = list(range(nodes))
    for i, j, _ in edges:
        comp = [comp[i] if c == comp[j] else c for c in comp]
    sizes = {c: (comp.count(c), sum(comp[i] == c for i, _, _ in edges)) for c in comp}
    big = max(s[0] for s in sizes.values())
    ctx.check("size of a largest component",
              rep["global_max_component_size"] in [s[1] for s in sizes.values() if s[0] == big])
    seen = {}
    for _, _, d in edges:
        for a, v in d.items():
            seen.setdefault(a, []).append(v)
    cat = {a for a, vs in seen.items() if any(float(v) == int(v) for v in vs)}
    ctx.check("categorical attributes", sorted(rep["categorical_attributes"]) == sorted(cat))
    ctx.check("continuous attributes",
              sorted(rep["continuous_attributes"]) == sorted(set(seen) - cat))
    dist = rep["categorical_distribution"]
    ctx.check("one entry per attribute", set(dist) == set(seen))
    for a, vs in seen.items():
        if a not in cat:
            ctx.check("no distribution of a continuous attribute", dist[a] is None)
            continue
        counts, bins = list(dist[a]["bin_counts"]), list(dist[a]["bin_edges"])
        ctx.check("bins", len(bins) == len(counts) + 1 and bins == sorted(bins))
        for k in range(len(counts)):
            last = k + 1 == len(counts)
            ctx.check_eq("values in the bin", int(counts[k]), sum(
                bins[k] <= v and (v < bins[k + 1] or last and v == bins[k + 1]) for v in vs))
        ctx.check_eq("every value counted", int(sum(counts)), len(vs))


HARNESSES = [
    Harness(measures, quick=[
        dict(nodes=1), dict(nodes=2, loops=True), dict(nodes=4), dict(nodes=3, loops=True),
        dict(nodes=3, attrs=["a"], values=[0, 1.5, 4]), dict(nodes=5, most=3),
        dict(nodes=3, attrs=["a", "b"], values=[2, 0.5], most=2),
        dict(nodes=3, attrs=["a", "b"], values=[2, 0.5], most=2, optional=True),
        dict(nodes=3, attrs=["a", "b"], values=[2], optional=True), dict(parts=1), dict(parts=2)],
        thorough=[dict(parts=3), dict(nodes=5), dict(nodes=4, loops=True), dict(nodes=4, attrs=["a"],
                                                               values=[0, 0.5, 3], most=4)],
        bounds="every graph of up to 4 nodes (5 with up to 3 edges, thorough 5), self loops up to "
        "3 nodes, up to 2 attributes of up to 3 values, present on any of the edges; two (thorough three) "
        "components of nine shapes with up to 5 nodes"),
    Harness(best_fit, quick=[dict(attributes=["w"], edges=1), dict(attributes=["w"], edges=2)],
            thorough=[dict(attributes=["w", "v"], edges=1)],
            bounds="one attribute (thorough two), any likelihoods",
            stubs=["scipy.stats distributions of graph_profiler: fit, nnlf and stats are inputs"]),
    Harness(large, quick=[dict(edges=5, scale=1), dict(edges=120, scale=10000)],
            bounds="paths of 5 and 120 edges, scipy itself"),
]
