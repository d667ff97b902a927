"""Graphs survive their text, drawing and network representations."""
import itertools
import os
import tempfile

import networkx as nx
import numpy as np

from causallearn.graph.Edge import Edge
from causallearn.graph.GraphClass import CausalGraph
from causallearn.graph.NodeType import NodeType
from causallearn.utils.GraphUtils import GraphUtils
from causallearn.utils.TXT2GeneralGraph import txt2generalgraph

from .. import gen, lib, ref
from ..core import Stream
from .G05 import rand_mixed

ID = "G06"
RULE = ("a case = a random graph (DAG, CPDAG or PAG marks, optional latent nodes, labels, edge annotations) sent through its text form, its drawing form or its "
        "network form and read back; non-trivial when it has an edge; distinct by graph")
ASSUMPTIONS = ["node names contain no whitespace or semicolon (the text form separates on them)"]


def rand(ctx, kinds=("dag", "cpdag", "pag")):
    r = ctx.rng
    n = int(r.integers(1, 8))
    kind = str(r.choice(list(kinds)))
    g = rand_mixed(r, n, kind)
    names = gen.names(r, n)
    ctx.note({"graph": g.show(names), "names": names})
    if any(True for _ in g.edges()):
        ctx.state(names, g.key())
    return n, g, names, kind


def text(ctx):
    r = ctx.rng
    n, g, names, kind = rand(ctx)
    G, nodes = lib.general_of(names, g)
    s = str(G)
    ctx.check(s == GraphUtils().graph_string(G), "text/two-forms")
    fd, p = tempfile.mkstemp(dir=".")
    lay = str(r.choice(["plain", "crlf", "trailing", "indent"]))
    ctx.event("layout:" + lay)
    out = s
    if lay == "crlf":
        out = s.replace("\n", "\r\n")
    elif lay == "trailing":
        out = s + "\n\nGraph Attributes:\nBIC: -12.5\n"
    elif lay == "indent":
        out = "\n" + s.replace("\n", "  \n")
    with os.fdopen(fd, "w", newline="") as f:
        f.write(out)
    try:
        H = txt2generalgraph(p)
    finally:
        os.remove(p)
    ctx.check([x.get_name() for x in H.get_nodes()] == names, "text/nodes", f"{names} read back as {H.get_node_names()}")
    h = lib.marks(H, names)
    ctx.event("edges", len(list(g.edges())))
    ctx.check(h.key() == g.key(), "text/edges", f"{s} read back as {h.show(names)}")
    ctx.check(np.array_equal(H.graph, G.graph), "text/matrix")
    ctx.check(str(H) == s, "text/not-idempotent")
    # the reloaded graph is a live graph: derived queries work on it
    if n > 1:
        hn = H.get_nodes()
        i, j = 0, 1
        ctx.check(bool(H.is_adjacent_to(hn[i], hn[j])) == bool(g.adj(i, j)), "text/query")
        D = {(a, b) for a in range(n) for b in range(n) if a != b and g.m[a][b] == ref.ARR and g.m[b][a] == ref.TAIL}
        R = ref.reach(n, D)
        for a, b in itertools.permutations(range(n), 2):
            ctx.check(bool(H.is_ancestor_of(hn[a], hn[b])) == bool(b in R[a]), "text/ancestors", f"{g.show(names)}: {names[a]} of {names[b]}")


ARROW = {ref.ARR: "normal", ref.TAIL: "none", ref.CIRC: "odot"}


def dot(ctx):
    r = ctx.rng
    n, g, names, kind = rand(ctx)
    G, nodes = lib.general_of(names, g)
    latent = {i for i in range(n) if r.random() < .2}
    for i in latent:
        nodes[i].set_node_type(NodeType.LATENT)
    labels = [f"lab{int(v)}" for v in r.permutation(n)] if r.random() < .5 else None
    edges, props = None, {}
    if r.random() < .6:
        ctx.event("given_edges")
        edges = G.get_graph_edges()
        r.shuffle(edges)
        if r.random() < .4:
            edges = edges[:len(edges) // 2]
        for e in edges:
            k = frozenset((e.get_node1().get_name(), e.get_node2().get_name()))
            props[k] = {q for q in ("dd", "nl", "pd", "pl") if r.random() < .4}
            for q in props[k]:
                e.properties.append(getattr(Edge.Property, q))
    kw = {}
    if edges is not None:
        kw["edges"] = edges
    if labels is not None:
        kw["labels"] = labels
        ctx.event("labels")
    P = GraphUtils.to_pydot(G, **kw)
    lab = labels or names
    seen = {}
    for nd in P.get_nodes():
        seen.setdefault(str(nd.get_name()).strip('"'), {}).update(nd.get_attributes())
    ctx.check(set(seen) == {str(i) for i in range(n)}, "dot/nodes", f"{set(seen)}")
    for i in range(n):
        a = seen.get(str(i), {})
        ctx.check(str(a.get("label")).strip('"') == lab[i], "dot/label", f"node {i}: {a}, should be labelled {lab[i]}")
        ctx.check((str(a.get("shape")).strip('"') == "square") == (i in latent), "dot/latent-shape", f"node {i}: {a}, latent {latent}")
    want = set()
    for e in (edges if edges is not None else G.get_graph_edges()):
        a, b = names.index(e.get_node1().get_name()), names.index(e.get_node2().get_name())
        pr = props.get(frozenset((names[a], names[b])), set())
        want.add((frozenset([(a, ARROW[g.m[b][a]]), (b, ARROW[g.m[a][b]])]), "dd" in pr, "nl" in pr))
    got = set()
    cnt = 0
    for e in P.get_edges():
        cnt += 1
        at = e.get_attributes()
        a, b = int(str(e.get_source()).strip('"')), int(str(e.get_destination()).strip('"'))
        got.add((frozenset([(a, at["arrowtail"]), (b, at["arrowhead"])]), at.get("color") == "green3", float(at.get("penwidth", 1)) == 2.0))
        ctx.check(at.get("dir") == "both", "dot/dir")
        ctx.event("dot_edges")
    ctx.check(got == want and cnt == len(want), "dot/edges", f"{g.show(names)}: {got} should be {want}")


def cg_lists(ctx):
    """CausalGraph's list views and network forms"""
    r = ctx.rng
    n = int(r.integers(1, 7))
    names = gen.names(r, n)
    g = ref.Mixed(n)
    for i, j in itertools.combinations(range(n), 2):
        if r.random() < .6:
            ma, mb = [(ref.TAIL, ref.TAIL), (ref.TAIL, ref.ARR), (ref.ARR, ref.TAIL), (ref.ARR, ref.ARR)][int(r.integers(4))]
            g.set(i, j, ma, mb)
    cg = CausalGraph(n, names)
    full, nodes = lib.general_of(names, g)
    complete = all(cg.G.graph[i, j] == -1 for i in range(n) for j in range(n) if i != j)
    ctx.check(complete and cg.G.get_node_names() == names, "cg/initial")
    cg.G = full
    ctx.note({"graph": g.show(names)})
    if any(True for _ in g.edges()):
        ctx.state(g.key())
    ar = {(i, j) for i, j in itertools.permutations(range(n), 2) if g.m[i][j] == ref.ARR}
    ta = {(i, j) for i, j in itertools.permutations(range(n), 2) if g.m[i][j] == ref.TAIL}

    def same(tag, got, want):
        got = [tuple(int(v) for v in t) for t in got]
        ctx.event("list_views")
        ctx.check(set(got) == want and len(got) == len(set(got)), "cg/" + tag, f"{g.show(names)}: {got}, should be {sorted(want)}")
    same("arrow-heads", cg.find_arrow_heads(), ar)
    same("tails", cg.find_tails(), ta)
    und = {(i, j) for i, j in ta if (j, i) in ta}
    dr = {(i, j) for i, j in ar if (j, i) in ta}
    bi = {(i, j) for i, j in ar if (j, i) in ar}
    same("undirected", cg.find_undirected(), und)
    same("directed", cg.find_fully_directed(), dr)
    same("bidirected", cg.find_bi_directed(), bi)
    same("adjacencies", cg.find_adj(), ar | ta)
    for i, j in itertools.permutations(range(n), 2):
        ctx.check(bool(cg.is_undirected(i, j)) == ((i, j) in und) and bool(cg.is_fully_directed(i, j)) == ((i, j) in dr), "cg/pair-queries")
    for i in range(n):
        ne = {j for j in range(n) if j != i and g.adj(i, j)}
        ctx.check({int(v) for v in cg.neighbors(i)} == ne, "cg/neighbors")
        for j in range(n):
            if j == i or n < 2:
                continue
            nj = {k for k in range(n) if k != j and g.adj(k, j)}
            want = {frozenset(S) for N in (ne, nj) for k in range(len(N) + 1) for S in itertools.combinations(sorted(N), k)}
            got = [frozenset(int(v) for v in S) for S in cg.find_cond_sets(i, j)]
            ctx.check(set(got) == want, "cg/cond-sets", f"{i},{j}: {got}")
            for k in range(n):
                ctx.check({frozenset(int(v) for v in S) for S in cg.find_cond_sets_with_mid(i, j, k)} == {S for S in want if k in S}, "cg/cond-sets-with")
                ctx.check({frozenset(int(v) for v in S) for S in cg.find_cond_sets_without_mid(i, j, k)} == {S for S in want if k not in S}, "cg/cond-sets-without")
                ctx.event("cond_sets")
    if n:
        ctx.check(int(cg.max_degree()) == max(sum(g.adj(i, j) for j in range(n) if j != i) for i in range(n)), "cg/max-degree")
    cg.to_nx_graph()
    cg.to_nx_skeleton()
    col = {"g": und, "b": dr, "r": bi}
    ctx.check(set(cg.nx_graph.nodes) == set(range(n)) and set(cg.nx_skel.nodes) == set(range(n)), "nx/nodes")
    ctx.check(set(cg.nx_graph.edges) == und | dr | bi and all((u, v) in col[d["color"]] for u, v, d in cg.nx_graph.edges(data=True)), "nx/edges",
              f"{g.show(names)}: {list(cg.nx_graph.edges(data=True))}")
    ctx.check({frozenset(e) for e in cg.nx_skel.edges} == {frozenset(e) for e in ar | ta}, "nx/skeleton")
    ctx.check(cg.labels == dict(enumerate(names)), "nx/labels")


STREAMS = {
    "text": Stream(text, 400, 8000, need=["edges", "layout:crlf", "layout:plain"]),
    "dot": Stream(dot, 400, 6000, need=["dot_edges", "labels", "given_edges"]),
    "cg_lists": Stream(cg_lists, 200, 4000, need=["list_views", "cond_sets"]),
}
