from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
from satisfy.utils import INFINITY

NODES = [0, 1, 2, "a", "b", "n_0", [1, 2], ["t", "u"], -5, "x y", 7, "node1", {"fs": [1, 2]}, "1", "0", ["a", "b"], "('a', 'b')", "A"]
LABELS = ["red", "green", "blue", 0, 5, [1, 2], "", "n_1", -1, "Red"]


def node_obj(x):
    if isinstance(x, list):
        return tuple(x)
    if isinstance(x, dict):
        return frozenset(x["fs"])
    return x


@st.composite
def graphs(draw, max_nodes=5, loops=True):
    n = draw(st.sampled_from([3, 4, 2, 5, 1, 0, 6, 7][:max_nodes + 1] if max_nodes >= 5 else list(range(max_nodes, -1, -1))))
    pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
    style = draw(st.sampled_from(["random", "random", "cycle", "complete", "path", "empty"]))
    if style == "complete":
        edges = list(pairs)
    elif style == "cycle":
        edges = [(i, (i + 1) % n) for i in range(n) if n > 2]
    elif style == "path":
        edges = [(i, i + 1) for i in range(n - 1)]
    elif style == "empty":
        edges = []
    else:
        edges = [p for p in pairs if draw(st.booleans())]
    if pairs:
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            edges.append(draw(st.sampled_from(pairs)))          # parallel or extra edges
    edges = [e if draw(st.booleans()) else (e[1], e[0]) for e in edges]
    if n and loops and draw(st.integers(0, 7)) == 0:
        i = draw(st.integers(0, n - 1))
        edges.append((i, i))
    return {"n": n, "edges": [list(e) for e in edges]}


@st.composite
def large_graphs(draw):
    """7-12 nodes, sparse; meant for two labels."""
    n = draw(st.integers(7, 12))
    style = draw(st.sampled_from(["path", "cycle", "star", "bipartite", "tree", "random"]))
    if style == "path":
        edges = [(i, i + 1) for i in range(n - 1)]
    elif style == "cycle":
        edges = [(i, (i + 1) % n) for i in range(n)]
    elif style == "star":
        edges = [(n - 1, i) for i in range(n - 1)]
    elif style == "tree":
        edges = [(draw(st.integers(0, i - 1)), i) for i in range(1, n)]
    else:
        pairs = [(i, j) for i in range(n) for j in range(i) if style == "random" or (i + j) % 2]
        edges = draw(st.lists(st.sampled_from(pairs), min_size=3, max_size=n))
    drop = draw(st.integers(0, 3))
    if drop:
        edges = edges[:-drop]
    edges = [e if draw(st.booleans()) else (e[1], e[0]) for e in draw(st.permutations(edges))]
    return {"n": n, "edges": [list(e) for e in edges]}


@st.composite
def cases(draw, tier):
    big = draw(st.integers(0, 24)) == 24
    g = draw(large_graphs() if big else graphs(5 if tier == "quick" else 6))
    k = draw(st.sampled_from([2, 2, 3, 1]) if big and len(g["edges"]) >= g["n"] - 1 and g["n"] <= 9 else st.just(2)) if big else draw(st.sampled_from([2, 3, 3, 1, 4, 0] if g["n"] <= 4 else [2, 3, 3, 1]))
    nodes = draw(st.permutations(NODES))[:g["n"]]
    if g["n"] > 1 and draw(st.integers(0, 5)) == 0:     # alike as text
        nodes = [x for x in nodes if x not in (1, "1", 0, "0", ["a", "b"], "('a', 'b')")]
        nodes = (draw(st.sampled_from([[1, "1"], ["0", 0], [["a", "b"], "('a', 'b')"]])) + nodes
                 + [100, 101, 102, 103, 104, 105])[:g["n"]]
        nodes = draw(st.permutations(nodes))
    labels = draw(st.permutations(LABELS))[:k]
    many = None
    if not big and g["n"] <= 2 and draw(st.integers(0, 3)) == 0:
        labels = draw(st.permutations(LABELS + list(range(100, 120))))[:draw(st.integers(11, 30))]
    elif not big and not draw(st.integers(0, 59)):       # dozens of nodes, few labelings
        n = draw(st.integers(13, 40))
        style = draw(st.sampled_from(["path", "star", "cycle", "tree"]))
        edges = [[0 if style == "star" else draw(st.integers(max(0, i - 4), i - 1)) if style == "tree" else i - 1, i] for i in range(1, n)]
        if style == "cycle":
            edges.append([n - 1, 0])
        g = {"n": n, "edges": draw(st.permutations(edges))}
        nodes = list(draw(st.permutations(NODES + list(range(100, 140))))[:n])
        labels = labels[:2]
        many = {"policy": "ORDERED", "compile": draw(st.booleans())}     # each node after one of its neighbours
    return {"graph": g, "type": draw(st.sampled_from(["Graph", "Graph", "DiGraph", "MultiGraph", "MultiDiGraph"])),
            "nodes": nodes, "labels": list(labels),
            "attrs": draw(st.sampled_from([None, None, "weight", "label", "color", "id", "capacity"])),
            "view": draw(st.sampled_from([None, None, None, None, "frozen", "part"])),
            "labels_as": draw(st.sampled_from(["list", "tuple", "generator"])),
            "limit": draw(st.sampled_from([None, None, None, "inf", 1, 4])),
            "cfg": many or draw(st.one_of(st.none(), M.CONFIG)), "seed": draw(st.integers(0, 9))}


class C20(Prop):
    id = "C20"
    rule = ("random graphs of all four networkx types (0-6, sometimes 7-12 nodes of varied hashable types; cycles, complete graphs, paths, "
            "parallel and reversed edges, self-loops, isolated nodes, attributes; at times a part of a larger graph), 0-4 labels of varied types; limits, configurations; "
            "non-trivial: at least 2 edges and a proper labeling exists")
    oracle = "brute force over all labelings"
    quick = 16000
    thorough = 80000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        random.seed(case["seed"])
        nodes = [node_obj(x) for x in case["nodes"]]
        labels = [node_obj(x) for x in case["labels"]]
        g = getattr(nx, case["type"])()
        g.add_nodes_from(nodes)
        edges = [tuple(e) for e in case["graph"]["edges"]]
        for a, b in edges:
            g.add_edge(nodes[a], nodes[b])
        if case.get("attrs"):       # attributes that mean nothing here
            for i, (a, b, data) in enumerate(g.edges(data=True)):
                data[case["attrs"]] = [0, 1, -1, None, "x"][i % 5]
            for i, (a, data) in enumerate(g.nodes(data=True)):
                data[case["attrs"]] = [None, 0, 1, "x"][i % 4]
            g.graph[case["attrs"]] = 0
            rec.label("attributes")
        if case.get("view") == "frozen":
            g = nx.freeze(g)
        elif case.get("view") == "part":        # of a larger graph
            g.add_edges_from([("outside", x) for x in nodes])
            g = g.subgraph([x for x in g if x != "outside"])
            rec.label("part-of-a-graph")
        before = (list(g.nodes()), list(g.edges()))
        want = P.colorings(len(nodes), edges, len(labels))
        rec.nontrivial = len(set(edges)) >= 2 and bool(want)
        rec.label("type:" + case["type"], "nodes={}".format(len(nodes)), "labels={}".format(len(labels)))
        rec.label("labelings={}".format(len(want) if len(want) < 3 else "3+"))
        rec.label_if(any(a == b for a, b in edges), "self-loop")
        args = {}
        cfg = case["cfg"]
        if cfg:
            args = {"var_selection_policy": M.policy(cfg["policy"]), "compile_constraints": cfg["compile"]}
        lim = case["limit"]
        if lim is not None:
            args["limit"] = INFINITY if lim == "inf" else lim
        n = min(lim, len(want)) if isinstance(lim, int) else len(want)
        larg = {"list": list, "tuple": tuple, "generator": lambda x: (y for y in x)}[case["labels_as"]](labels)
        got = []
        kept = P.Kept()
        for sol in map(kept.add, GraphLabelingSolver(g, larg, **args)):
            require(len(sol) == len(nodes) and all(v in sol for v in nodes), "labeling {} is not over the nodes {}", sol, nodes)
            require(all(any(x is y or (type(x) is type(y) and x == y) for y in labels) for x in sol.values()),
                    "labeling {} uses other labels than {}", sol, labels)
            for a, b in edges:
                require(sol[nodes[a]] != sol[nodes[b]], "edge {}-{} has equal labels in {}", nodes[a], nodes[b], sol)
            got.append(tuple(labels.index(sol[v]) for v in nodes))
            require(len(got) <= n, "more than {} labelings", n)
        kept.check()
        require(case["labels_as"] == "generator" or list(larg) == labels, "the labels given were changed to {}", larg)
        require(len(set(got)) == len(got), "a labeling is yielded twice")
        require(len(got) == n, "{} labelings instead of {} (limit {}); missing e.g. {}", len(got), n, lim, sorted(want - set(got))[:1])
        require(before == (list(g.nodes()), list(g.edges())), "the graph was changed")


PROP = C20()
