"""Graph objects behave as the documented edge-set model under every history of mutations."""
import copy
import itertools

import numpy as np

from causallearn.graph.Dag import Dag
from causallearn.graph.Edge import Edge
from causallearn.graph.Endpoint import Endpoint
from causallearn.graph.GeneralGraph import GeneralGraph
from causallearn.graph.GraphNode import GraphNode

from .. import gen, ref
from ..core import Stream

ID = "G01"
RULE = ("a case = one random history of 10-60 graph mutations (general graph with all endpoint types and the documented double "
        "edges, or DAG), every public query compared with an edge-set model along the way; non-trivial when the history "
        "removes or replaces something; distinct by the sequence of model states")
ASSUMPTIONS = []

T, A, C = "TAIL", "ARROW", "CIRCLE"
EPV = {T: Endpoint.TAIL, A: Endpoint.ARROW, C: Endpoint.CIRCLE}
NAME = {-1: T, 1: A, 2: C}
KINDS = [(T, A), (A, T), (T, T), (A, A), (C, A), (A, C), (C, C), (C, T), (T, C)]


class Model:
    def __init__(self, names):
        self.names = list(names)
        self.e = {}          # (a, b) a<b by position in sorted name order -> list of (mark_a, mark_b)

    def copy(self):
        m = Model(self.names)
        m.e = {k: list(v) for k, v in self.e.items()}
        return m

    @staticmethod
    def norm(a, b, ma, mb):
        return ((a, b), (ma, mb)) if a < b else ((b, a), (mb, ma))

    def add(self, a, b, ma, mb):
        k, v = self.norm(a, b, ma, mb)
        cur = self.e.get(k, [])
        if not cur:
            self.e[k] = [v]
            return True
        if v in cur:
            return None
        if len(cur) == 2 or any(C in x for x in cur + [v]):
            return False
        if (T, T) in cur + [v]:
            return "skip"        # undirected plus bidirected: not a documented combination
        if ((A, A) in cur) != (v == (A, A)):
            self.e[k] = cur + [v]
            return True
        return False

    def remove(self, a, b, ma, mb):
        k, v = self.norm(a, b, ma, mb)
        cur = self.e.get(k, [])
        if v in cur:
            cur = [x for x in cur if x != v]
            if cur:
                self.e[k] = cur
            else:
                del self.e[k]

    def drop_pair(self, a, b):
        self.e.pop((a, b) if a < b else (b, a), None)

    def drop_node(self, a):
        self.names.remove(a)
        self.e = {k: v for k, v in self.e.items() if a not in k}

    def marks(self, a, b):
        """list of (mark at a, mark at b)"""
        if a < b:
            return self.e.get((a, b), [])
        return [(y, x) for x, y in self.e.get((b, a), [])]

    def directed(self):
        return {(x, y) for x in self.names for y in self.names if x != y and (T, A) in self.marks(x, y)}

    def edgeset(self):
        return sorted((k, v) for k, l in self.e.items() for v in l)


def named(edges):
    out = []
    for e in edges:
        a, b = e.get_node1().get_name(), e.get_node2().get_name()
        ma, mb = NAME.get(e.get_endpoint1().value, "?"), NAME.get(e.get_endpoint2().value, "?")
        out.append(Model.norm(a, b, ma, mb))
    return sorted(out)


def closure(m):
    D = m.directed()
    R = {}
    for v in m.names:
        seen, st = {v}, [v]
        while st:
            u = st.pop()
            for a, b in D:
                if a == u and b not in seen:
                    seen.add(b)
                    st.append(b)
        R[v] = seen
    return R, D


def nm(l):
    return sorted(x.get_name() for x in l)


def compare(ctx, g, m, key, dag=False, full=True):
    N = {x.get_name(): x for x in g.get_nodes()}
    names = m.names
    ck = ctx.check
    ctx.event("model_comparisons")
    if not ck([x.get_name() for x in g.get_nodes()] == names, key + "/nodes", lambda: f"{list(N)} vs {names}"):
        return
    ck(g.get_num_nodes() == len(names), key + "/num_nodes", "")
    ck(g.get_node_names() == names, key + "/node_names", lambda: f"{g.get_node_names()}")
    ck(named(g.get_graph_edges()) == m.edgeset(), key + "/edges", lambda: f"{named(g.get_graph_edges())} vs {m.edgeset()}")
    ck(g.get_num_edges() == len(m.edgeset()), key + "/num_edges", lambda: f"{g.get_num_edges()} vs {len(m.edgeset())}")
    R, D = closure(m)
    for a, b in itertools.permutations(names, 2):
        mk = m.marks(a, b)
        x, y = N[a], N[b]
        ck(g.is_adjacent_to(x, y) == bool(mk), key + "/is_adjacent_to", lambda: (a, b, mk))
        ck(bool(g.is_ancestor_of(x, y)) == (b in R[a]), key + "/is_ancestor_of", lambda: f"{a} anc {b}: model {b in R[a]}, edges {m.edgeset()}")
        ck(bool(g.is_descendant_of(x, y)) == (a in R[b]), key + "/is_descendant_of", lambda: (a, b))
        ck(bool(g.is_parent_of(x, y)) == ((a, b) in D), key + "/is_parent_of", lambda: (a, b, mk))
        ck(bool(g.is_child_of(x, y)) == ((b, a) in D), key + "/is_child_of", lambda: (a, b, mk))
        if not full:
            continue
        ck(bool(g.is_proper_ancestor_of(x, y)) == (b in R[a]), key + "/is_proper_ancestor_of", lambda: (a, b))
        ck(bool(g.is_proper_descendant_of(x, y)) == (a in R[b]), key + "/is_proper_descendant_of", lambda: (a, b))
        ck(g.exists_trek(x, y) == any(a in R[v] and b in R[v] for v in names), key + "/exists_trek", lambda: (a, b))
        if len(mk) <= 1:
            e = g.get_edge(x, y)
            ck((e is None) == (not mk), key + "/get_edge_none", lambda: (a, b, mk))
            if e is not None and mk:
                ck(named([e]) == [Model.norm(a, b, *mk[0])], key + "/get_edge", lambda: f"{e} vs {a} {mk} {b}")
                if not dag:
                    ep = g.get_endpoint(x, y)
                    ck(NAME[ep.value] == mk[0][1], key + "/get_endpoint", lambda: f"{ep} vs {mk}")
            e = g.get_directed_edge(x, y)
            ck((e is not None) == (mk == [(T, A)]), key + "/get_directed_edge", lambda: f"{a} {mk} {b}: {e}")
            if e is not None and mk == [(T, A)]:
                ck(named([e]) == [Model.norm(a, b, T, A)], key + "/get_directed_edge", lambda: f"{a} {mk} {b}: {e}")
            ck(g.is_directly_connected_to(x, y) == bool(mk), key + "/is_directly_connected_to", lambda: (a, b, mk))
            ck(bool(g.is_directed_from_to(x, y)) == (mk == [(T, A)]), key + "/is_directed_from_to", lambda: (a, b, mk))
            ck(bool(g.is_undirected_from_to(x, y)) == (mk == [(T, T)]), key + "/is_undirected_from_to", lambda: (a, b, mk))
        for ka, kb in KINDS:
            ck(bool(g.contains_edge(Edge(x, y, EPV[ka], EPV[kb]))) == ((ka, kb) in mk), key + "/contains_edge",
               lambda: f"{a} {ka}/{kb} {b} in {mk}")
    for a in names:
        x = N[a]
        inc = [(b, ma, mb) for b in names if b != a for ma, mb in m.marks(a, b)]
        ck(nm(g.get_adjacent_nodes(x)) == sorted({b for b, _, _ in inc}), key + "/get_adjacent_nodes", lambda: (a, inc))
        ck(nm(g.get_parents(x)) == sorted(p for p, c in D if c == a), key + "/get_parents", lambda: (a, inc))
        ck(nm(g.get_children(x)) == sorted(c for p, c in D if p == a), key + "/get_children", lambda: (a, inc))
        ck(nm(g.get_ancestors([x])) == sorted(v for v in names if a in R[v]), key + "/get_ancestors", lambda: (a, nm(g.get_ancestors([x]))))
        ck(named(g.get_node_edges(x)) == sorted(Model.norm(a, b, ma, mb) for b, ma, mb in inc), key + "/get_node_edges", lambda: (a, inc))
        ck(g.get_indegree(x) == sum(ma == A for _, ma, _ in inc), key + "/get_indegree", lambda: (a, inc, g.get_indegree(x)))
        ck(g.get_outdegree(x) == sum(ma == T for _, ma, _ in inc), key + "/get_outdegree", lambda: (a, inc, g.get_outdegree(x)))
        ck(g.get_degree(x) == len(inc), key + "/get_degree", lambda: (a, inc))
        ck(g.get_num_connected_edges(x) == len(inc), key + "/get_num_connected_edges", lambda: (a, inc))
        ck(g.is_exogenous(x) == (not any(ma == A for _, ma, _ in inc)), key + "/is_exogenous", lambda: (a, inc))
        ck(g.get_node(a) is not None and g.get_node(a).get_name() == a, key + "/get_node", a)
        ck(g.contains_node(x), key + "/contains_node", a)
        for e_ in (T, A) if dag else (T, A, C):
            ck(nm(set(g.get_nodes_into(x, EPV[e_]))) == sorted({b for b, ma, _ in inc if ma == e_}), key + "/get_nodes_into", lambda: (a, e_, inc))
            ck(nm(set(g.get_nodes_out_of(x, EPV[e_]))) == sorted({b for b, _, mb in inc if mb == e_}), key + "/get_nodes_out_of", lambda: (a, e_, inc))
        if full:
            for b, c in itertools.permutations([v for v in names if v != a], 2):
                m1, m2 = m.marks(b, a), m.marks(c, a)
                if len(m1) > 1 or len(m2) > 1:
                    continue
                col = bool(m1 and m2 and m1[0][1] == A and m2[0][1] == A)
                ck(bool(g.is_def_collider(N[b], x, N[c])) == col, key + "/is_def_collider", lambda: (b, a, c, m1, m2))
                if not dag:
                    ck(bool(g.is_def_unshielded_collider(N[b], x, N[c])) == (col and not m.marks(b, c)), key + "/is_def_unshielded_collider", lambda: (b, a, c))
    cyc = any(a in R[c] for a, c in D)
    if names:
        ck(bool(g.exists_directed_cycle()) == cyc, key + "/exists_directed_cycle", lambda: f"model {cyc}: {m.edgeset()}")
        if not dag:
            ck(g.get_max_degree() == max(sum(a in k for k, v in m.edgeset()) for a in names), key + "/get_max_degree", "")
    ck(g.get_node("no such name") is None, key + "/get_node_missing", "")


def check_eq(ctx, g, m, r, key, cls):
    """equality = same node set and same typed edges, whatever the node order; asking does not change the graphs"""
    def build(mm, order):
        N = {x: GraphNode(x) for x in order}
        h = cls([N[x] for x in order])
        for (a, b), (ma, mb) in sorted(mm.edgeset(), key=lambda t: (A, A) == t[1]):
            h.add_edge(Edge(N[a], N[b], EPV[ma], EPV[mb]))
        return h
    order = [m.names[int(i)] for i in r.permutation(len(m.names))]
    h = build(m, order)
    before = [x.get_name() for x in g.get_nodes()]
    ctx.event("equality_checks")
    ctx.check(g == h, key + "/eq_true", lambda: f"same nodes and edges but unequal; orders {m.names} / {order}")
    ctx.check(h == g, key + "/eq_sym", "equality not symmetric")
    ctx.check([x.get_name() for x in g.get_nodes()] == before and [x.get_name() for x in h.get_nodes()] == order,
              key + "/eq_mutates", lambda: f"== reordered the nodes {before} / {order}")
    m2 = m.copy()
    if m2.e and r.random() < .6:
        k = sorted(m2.e)[int(r.integers(len(m2.e)))]
        v = m2.e.pop(k)
        if r.random() < .5 and len(v) == 1:
            if v[0] != v[0][::-1]:
                m2.e[k] = [v[0][::-1]]
            elif cls is GeneralGraph:
                m2.e[k] = [(A, A)] if v[0] != (A, A) else [(T, T)]
        h2 = build(m2, m.names)
    else:
        if not m.names:
            return
        i = int(r.integers(len(m.names)))
        ren = {x: x for x in m.names}
        ren[m.names[i]] = "renamed!"
        m2 = Model([ren[x] for x in m.names])
        for (a, b), l in m.e.items():
            for ma, mb in l:
                k, v = Model.norm(ren[a], ren[b], ma, mb)
                m2.e.setdefault(k, []).append(v)
        h2 = build(m2, m2.names)
    ctx.check(not (g == h2), key + "/eq_false", lambda: f"different graphs compare equal: {m.names} {m.edgeset()} vs {m2.names} {m2.edgeset()}")
    ctx.check([x.get_name() for x in g.get_nodes()] == before, key + "/eq_mutates", "")


def set_nodes(ctx, g, m, r, fresh, key):
    """give the graph's positions other nodes (new names, or the same names in another order)"""
    if r.random() < .5:
        new = [m.names[int(i)] for i in r.permutation(len(m.names))]
    else:
        new = [f"s{fresh}.{i}" if r.random() < .6 else x for i, x in enumerate(m.names)]
    ren = dict(zip(m.names, new))
    out = Model(new)
    for (a, b), l in m.e.items():
        for ma, mb in l:
            k, v = Model.norm(ren[a], ren[b], ma, mb)
            out.e.setdefault(k, []).append(v)
    given = [GraphNode(x) for x in new]
    g.set_nodes(given)
    given.append(GraphNode("the caller's list is not the graph's"))
    try:
        g.set_nodes([GraphNode("q")] * (len(new) + 1))
        ctx.fail(key + "/set_nodes_mismatch", "a list of another length is accepted")
    except ValueError:
        pass
    return out


def extras(ctx):
    """triples, attributes and flags are plain collections; an unknown one is refused; transferring them copies all"""
    r = ctx.rng
    cls = GeneralGraph if r.random() < .6 else Dag
    n = int(r.integers(3, 6))
    nodes = [GraphNode(x) for x in gen.names(r, n)]
    g = cls(nodes)
    sets = {"ambiguous": [], "underline": [], "dotted_underline": []}
    get = {"ambiguous": g.get_ambiguous_triples, "underline": g.get_underlines, "dotted_underline": g.get_dotted_underlines}
    attrs = {}
    trail = []
    for _ in range(int(r.integers(5, 30))):
        op = str(r.choice(["add", "remove", "set", "attr", "unattr", "rename"]))
        kind = str(r.choice(sorted(sets)))
        t = tuple(nodes[int(i)] for i in r.permutation(n)[:3])
        if op == "add":
            getattr(g, f"add_{kind}_triple")(*t)
            sets[kind].append(t)
        elif op == "remove" and sets[kind]:
            t = sets[kind][int(r.integers(len(sets[kind])))]
            getattr(g, f"remove_{kind}_triple")(*t)
            sets[kind].remove(t)
        elif op == "set":
            new = [tuple(nodes[int(i)] for i in r.permutation(n)[:3]) for _ in range(int(r.integers(0, 4)))]
            getattr(g, f"set_{kind}_triples")(list(new))
            sets[kind] = new
        elif op == "attr":
            k, v = f"k{int(r.integers(4))}", int(r.integers(100))
            g.add_attribute(k, v)
            attrs[k] = v
        elif op == "unattr" and attrs:
            k = sorted(attrs)[int(r.integers(len(attrs)))]
            ok, _ = ctx.call("remove_attribute", g.remove_attribute, k)
            del attrs[k]
        trail.append((op, kind))
        ctx.event("extra_edits")
        for kk, ts in sets.items():
            ctx.check(sorted(map(str, [[x.get_name() for x in t] for t in get[kk]()])) == sorted(map(str, [[x.get_name() for x in t] for t in ts])), "extras/triples", lambda: kk)
            ctx.check(getattr(g, f"is_{kk}_triple")(*t) == (t in ts), "extras/is_triple", lambda: kk)
        ctx.check(g.get_all_attributes() == attrs and all(g.get_attribute(k) == v for k, v in attrs.items()), "extras/attributes", lambda: f"{g.get_all_attributes()} {attrs}")
        if ctx.fails:
            return
    if cls is GeneralGraph:
        h = cls(nodes)
        g.transfer_attributes(h)
        ctx.check(h.get_all_attributes() == attrs, "extras/transfer_attributes", "")
        for f in (True, False):
            g.set_pattern(f)
            g.set_pag(not f)
            ctx.check(g.is_pattern() is f and g.is_pag() is (not f), "extras/flags", "")
    # node objects
    x = GraphNode("x")
    x["k"] = 1
    x.add_attribute("l", 2)
    y = x.like("y")
    ctx.check(y.get_name() == "y" and y.get_node_type() == x.get_node_type() and x.get_all_attributes() == {"k": 1, "l": 2} and x["l"] == 2, "extras/node", "")
    del x["k"]
    ctx.check(x.get_all_attributes() == {"l": 2}, "extras/node", "")
    x.set_center(3, 4)
    ctx.check((x.get_center_x(), x.get_center_y()) == (3, 4), "extras/node", "")
    x.set_name("y")
    ctx.check(x == y and hash(x) == hash(y) and str(x) == "y" and not (x < y) and GraphNode("a") < GraphNode("b"), "extras/node-equality", "")
    ctx.state(trail)


def history(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8)) if r.random() < .8 else int(r.integers(10, 14))
    names = gen.names(r, n)
    nodes = [GraphNode(x) for x in names]
    g, m = GeneralGraph(nodes), Model(names)
    others = []          # snapshots that later mutations must not affect
    steps = int(r.integers(10, 40))
    trail = []
    fresh = 0
    kinds = KINDS if r.random() < .5 else [(T, A), (A, T), (T, T), (A, A)] if r.random() < .5 else [(T, A), (A, T)]
    interesting = False
    for s in range(steps):
        N = {x.get_name(): x for x in g.get_nodes()}
        names = list(m.names)
        op = str(r.choice(["add", "rm", "rmpair", "rmnode", "addnode", "sub", "eq", "copy", "rmmany", "directed", "setnodes", "clear", "rmnodes"],
                          p=[.54, .15, .05, .03, .05, .03, .03, .02, .02, .04, .025, .005, .01]))
        if len(names) < 2:
            op = "addnode"
        pick = [names[int(i)] for i in r.permutation(len(names))[:2]] if len(names) >= 2 else None
        if op == "add":
            a, b = pick
            ka, kb = kinds[int(r.integers(len(kinds)))]
            want = m.add(a, b, ka, kb)
            if want == "skip":
                continue
            got = g.add_edge(Edge(N[a], N[b], EPV[ka], EPV[kb]))
            if want is not None:
                ctx.check(bool(got) == want, "general/add_edge_result", f"add_edge({a} {ka} {kb} {b}) returned {got}, edge {'added' if want else 'rejected'}")
            trail.append(f"add {a} {ka}/{kb} {b}")
        elif op == "directed":
            a, b = pick
            if not m.marks(a, b) or m.marks(a, b) == [(T, A)]:
                m.add(a, b, T, A)
                g.add_directed_edge(N[a], N[b])
                trail.append(f"directed {a} {b}")
        elif op == "rm":
            es = m.edgeset()
            if es and r.random() < .9:
                (a, b), (ma, mb) = es[int(r.integers(len(es)))]
                if r.random() < .5:
                    a, b, ma, mb = b, a, mb, ma
                interesting = True
            else:
                (a, b), (ma, mb) = pick, kinds[int(r.integers(len(kinds)))]
                if len(m.marks(a, b)) > 1:
                    continue
            m.remove(a, b, ma, mb)
            g.remove_edge(Edge(N[a], N[b], EPV[ma], EPV[mb]))
            trail.append(f"rm {a} {ma}/{mb} {b}")
        elif op == "rmpair":
            a, b = pick
            m.drop_pair(a, b)
            (g.remove_connecting_edge if r.random() < .5 else g.remove_connecting_edges)(N[a], N[b])
            trail.append(f"rmpair {a} {b}")
        elif op == "rmnode":
            a = pick[0]
            if others:
                continue
            m.drop_node(a)
            g.remove_node(N[a])
            interesting = True
            trail.append(f"rmnode {a}")
        elif op == "rmnodes":
            if others:
                continue
            for a in pick:
                m.drop_node(a)
            g.remove_nodes([N[a] for a in pick])
            interesting = True
            trail.append(f"rmnodes {pick}")
        elif op == "clear":
            m = Model([])
            g.clear()
            ctx.check(not g.get_ambiguous_triples() and not g.get_underlines() and not g.get_dotted_underlines(), "general/clear-triples", "")
            trail.append("clear")
        elif op == "setnodes":
            new = set_nodes(ctx, g, m, r, fresh, "general")
            fresh += 1
            m = new
            interesting = True
            trail.append(f"setnodes {m.names}")
        elif op == "addnode":
            a = f"new{fresh}"
            fresh += 1
            m.names.append(a)
            ctx.check(bool(g.add_node(GraphNode(a))), "general/add_node_result", "")
            ctx.check(not g.add_node(GraphNode(a)), "general/add_node_dup", "duplicate node name accepted")
            trail.append(f"addnode {a}")
        elif op == "rmmany":
            es = m.edgeset()
            es = [es[int(i)] for i in r.permutation(len(es))[:3]]
            g.remove_edges([Edge(N[a], N[b], EPV[x], EPV[y]) for (a, b), (x, y) in es])
            for (a, b), (x, y) in es:
                m.remove(a, b, x, y)
            trail.append(f"rmmany {es}")
        elif op == "sub":
            k = int(r.integers(1, len(names) + 1))
            keep = [names[int(i)] for i in r.permutation(len(names))[:k]]
            if r.random() < .4:
                keep = [x for x in names if x in keep]
            mm = m.copy()
            mm.names = keep
            mm.e = {kk: v for kk, v in mm.e.items() if kk[0] in keep and kk[1] in keep}
            ok, h = ctx.call("subgraph", g.subgraph, [N[x] for x in keep])
            if ok:
                compare(ctx, h, mm, "general/subgraph", full=False)
            trail.append(f"sub {keep}")
        elif op == "eq":
            check_eq(ctx, g, m, r, "general", GeneralGraph)
            trail.append("eq")
        elif op == "copy":
            h = GeneralGraph([])
            h.transfer_nodes_and_edges(g)
            compare(ctx, h, m, "general/transfer", full=False)
            h = copy.deepcopy(g)
            mm = m.copy()
            others.append((h, mm))
            trail.append("deepcopy")
        ctx.event("mutations")
        compare(ctx, g, m, "general", full=(s % 5 == 0 or s == steps - 1))
        if ctx.fails:
            break
    for h, mm in others:
        compare(ctx, h, mm, "general/snapshot", full=False)
    ctx.note({"class": "GeneralGraph", "trail": trail[:40]})
    if interesting:
        ctx.state(trail)


def dag_history(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8)) if r.random() < .8 else int(r.integers(10, 13))
    names = gen.names(r, n)
    nodes = [GraphNode(x) for x in names]
    g, m = Dag(nodes), Model(names)
    fresh = 0
    trail = []
    interesting = False
    steps = int(r.integers(10, 40))
    for s in range(steps):
        N = {x.get_name(): x for x in g.get_nodes()}
        names = list(m.names)
        op = str(r.choice(["add", "rm", "rmpair", "rmnode", "addnode", "sub", "eq", "cycle", "setnodes", "rmnodes", "other"], p=[.5, .14, .05, .05, .06, .06, .04, .05, .02, .01, .02]))
        if len(names) < 2:
            op = "addnode"
        pick = [names[int(i)] for i in r.permutation(len(names))[:2]] if len(names) >= 2 else None
        if op == "add":
            a, b = pick
            R, D = closure(m)
            if a in R[b]:
                a, b = b, a
            if a in R[b] or (b, a) in D:
                continue
            m.add(a, b, T, A)
            if r.random() < .5:
                g.add_directed_edge(N[a], N[b])
            else:
                ctx.check(bool(g.add_edge(Edge(N[a], N[b], Endpoint.TAIL, Endpoint.ARROW) if r.random() < .5 else
                                          Edge(N[b], N[a], Endpoint.ARROW, Endpoint.TAIL))), "dag/add_edge_result", "")
            trail.append(f"{a}->{b}")
        elif op in ("rm", "rmpair"):
            D = sorted(m.directed())
            if not D:
                continue
            a, b = D[int(r.integers(len(D)))]
            m.drop_pair(a, b)
            if op == "rm":
                g.remove_edge(g.get_edge(N[a], N[b]))
            else:
                (g.remove_connecting_edge if r.random() < .5 else g.remove_connecting_edges)(N[a], N[b])
            interesting = True
            trail.append(f"{op} {a}->{b}")
        elif op == "cycle":
            # whatever closes a directed cycle (also a reversed edge or a loop at one node) is refused and changes nothing
            R, D = closure(m)
            anc = [(a, b) for a in names for b in R[a]]
            a, b = anc[int(r.integers(len(anc)))]
            if r.random() < .5:
                ctx.check(not g.add_edge(Edge(N[b], N[a], Endpoint.TAIL, Endpoint.ARROW)), "dag/cycle-accepted", lambda: f"{b}->{a} with {m.edgeset()}")
            else:
                try:
                    g.add_directed_edge(N[b], N[a])
                    ctx.fail("dag/cycle-accepted", f"{b}->{a} with {m.edgeset()}")
                except ValueError:
                    pass
            ctx.event("cycles_refused")
            trail.append(f"cycle {b}->{a}")
        elif op == "other":
            a, b = pick
            k = [(T, T), (A, A), (C, A), (C, C), (C, T)][int(r.integers(5))]
            ctx.check(not g.add_edge(Edge(N[a], N[b], EPV[k[0]], EPV[k[1]])), "dag/undirected-accepted", lambda: f"{a} {k} {b}")
        elif op == "setnodes":
            m = set_nodes(ctx, g, m, r, fresh, "dag")
            fresh += 1
            interesting = True
            trail.append(f"setnodes {m.names}")
        elif op == "rmnodes":
            for a in pick:
                m.drop_node(a)
            g.remove_nodes([N[a] for a in pick])
            trail.append(f"rmnodes {pick}")
        elif op == "rmnode":
            m.drop_node(pick[0])
            ok, _ = ctx.call("dag.remove_node", g.remove_node, N[pick[0]])
            interesting = True
            trail.append(f"rmnode {pick[0]}")
        elif op == "addnode":
            a = f"new{fresh}"
            fresh += 1
            m.names.append(a)
            g.add_node(GraphNode(a))
            trail.append(f"addnode {a}")
        elif op == "sub":
            k = int(r.integers(1, len(names) + 1))
            keep = [names[int(i)] for i in r.permutation(len(names))[:k]]
            mm = m.copy()
            mm.names = keep
            mm.e = {kk: v for kk, v in mm.e.items() if kk[0] in keep and kk[1] in keep}
            ok, h = ctx.call("dag.subgraph", g.subgraph, [N[x] for x in keep])
            if ok:
                compare(ctx, h, mm, "dag/subgraph", dag=True, full=False)
            trail.append(f"sub {keep}")
        elif op == "eq":
            check_eq(ctx, g, m, r, "dag", Dag)
        ctx.event("mutations")
        if ctx.fails:
            break
        compare(ctx, g, m, "dag", dag=True, full=(s % 5 == 0 or s == steps - 1))
        if ctx.fails:
            break
        if s % 7 == 0 and m.names:
            o = [x.get_name() for x in g.get_causal_ordering()]
            pos = {v: i for i, v in enumerate(o)}
            ctx.check(sorted(o) == sorted(m.names) and all(pos[a] < pos[b] for a, b in m.directed()), "dag/causal_ordering", f"{o} for {m.edgeset()}")
    ctx.note({"class": "Dag", "trail": trail[:40]})
    if interesting:
        ctx.state(trail)


def aliasing(ctx):
    """a graph built from another graph's node list is independent of it"""
    from causallearn.utils.DAG2CPDAG import dag2cpdag
    r = ctx.rng
    n = int(r.integers(3, 8))
    names = gen.names(r, n)
    E = gen.rand_dag(r, n)
    nodes = [GraphNode(x) for x in names]
    g = Dag(nodes)
    m = Model(names)
    for i, j in sorted(E):
        g.add_directed_edge(nodes[i], nodes[j])
        m.add(names[i], names[j], T, A)
    how = str(r.choice(["general", "dag", "dag2cpdag"]))
    if how == "dag2cpdag":
        h = dag2cpdag(g)
    else:
        h = (GeneralGraph if how == "general" else Dag)(g.get_nodes())
    ctx.note({"how": how, "E": sorted(E), "names": names})
    k = int(r.integers(n))
    if r.random() < .5:
        h.remove_node(nodes[k])
        act = f"remove {names[k]}"
    else:
        h.add_node(GraphNode("added"))
        act = "add node"
    ctx.event("mutations")
    ctx.event("alias_checks")
    compare(ctx, g, m, f"alias/{how}", dag=True, full=False)
    ctx.state(how, act, sorted(E))


def edge_objects(ctx):
    """Edge objects normalise direction, and endpoint/node queries agree from both ends under set_endpoint histories"""
    r = ctx.rng
    a, b = GraphNode("a"), GraphNode("b")
    x, y = (a, b) if r.random() < .5 else (b, a)
    k1, k2 = KINDS[int(r.integers(len(KINDS)))]
    e = Edge(x, y, EPV[k1], EPV[k2])
    st = {x.get_name(): k1, y.get_name(): k2}
    trail = [(x.get_name(), k1, k2)]
    for _ in range(int(r.integers(1, 8))):
        p = {n.get_name(): e.get_proximal_endpoint(n).name for n in (a, b)}
        d = {n.get_name(): e.get_distal_endpoint(n).name for n in (a, b)}
        ctx.event("edge_checks")
        ctx.check(p == st, "edge/proximal", f"{p} vs {st} after {trail}")
        ctx.check(d == {"a": st["b"], "b": st["a"]}, "edge/distal", f"{d} {st}")
        ctx.check(e.get_distal_node(a) is b and e.get_distal_node(b) is a, "edge/distal_node", "")
        for n, o in ((a, b), (b, a)):
            want = st[n.get_name()] == A and st[o.get_name()] in (T, C)
            ctx.check(e.points_toward(n) == want, "edge/points_toward", f"{st} {n}")
        ctx.check((e.get_node1().get_name(), e.get_endpoint1().name) in st.items(), "edge/node1", "")
        ctx.check((e.get_numerical_endpoint1(), e.get_numerical_endpoint2()) == (e.get_endpoint1().value, e.get_endpoint2().value), "edge/numerical",
                  f"{st} after {trail}")
        f = Edge(b, a, EPV[st["b"]], EPV[st["a"]])
        sym = st["a"] == st["b"] or {st["a"], st["b"]} == {T, C}
        if not sym:
            ctx.check(e == f, "edge/eq", f"{e} vs {f}")
        L = {T: "-", A: "<", C: "o"}[st[e.get_node1().get_name()]]
        Rr = {T: "-", A: ">", C: "o"}[st[e.get_node2().get_name()]]
        ctx.check(str(e) == f"{e.get_node1().get_name()} {L}-{Rr} {e.get_node2().get_name()}", "edge/str", str(e))
        ctx.check(not (st[e.get_node1().get_name()] == A and st[e.get_node2().get_name()] in (T, C)), "edge/points_left", str(e))
        v = [T, A, C][int(r.integers(3))]
        if r.random() < .5:
            st[e.get_node1().get_name()] = v
            e.set_endpoint1(EPV[v])
            trail.append(("set1", v))
        else:
            st[e.get_node2().get_name()] = v
            e.set_endpoint2(EPV[v])
            trail.append(("set2", v))
    ctx.state(trail)


STREAMS = {
    "history": Stream(history, 500, 8000, need=["mutations", "equality_checks"], timeout=90),
    "dag": Stream(dag_history, 400, 6000, need=["mutations", "equality_checks", "cycles_refused"], timeout=90),
    "extras": Stream(extras, 100, 1500, need=["extra_edits"]),
    "alias": Stream(aliasing, 100, 1000, need=["alias_checks"]),
    "edges": Stream(edge_objects, 300, 3000, need=["edge_checks"]),
}
