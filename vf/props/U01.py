"""Enumerators, the priority queue, adjacency-matrix helpers, causal order and path queries, data set loading, time-series plots."""
import io
import itertools
import os
import tempfile

import networkx as nx
import numpy as np

from causallearn.graph.Dag import Dag
from causallearn.utils import Dataset
from causallearn.utils.ChoiceGenerator import ChoiceGenerator
from causallearn.utils.DepthChoiceGenerator import DepthChoiceGenerator
from causallearn.utils.GESUtils import Combinatorial
from causallearn.utils.GraphUtils import GraphUtils
from causallearn.utils.PCUtils import Helper
from causallearn.utils.PriorityQueue import PriorityQueue

from .. import gen, lib, ref
from ..core import Stream

ID = "U01"
RULE = "a case = one parameter setting or random object put through every helper; non-trivial when there is something to enumerate; distinct by it"
ASSUMPTIONS = ["helpers that draw on screen are observed with the drawing call replaced", "the data set loader is served from memory, there is no network"]


def choices(ctx):
    r = ctx.rng
    a, b = int(r.integers(0, 8)), int(r.integers(0, 8))
    if b <= a:
        g, out = ChoiceGenerator(a, b), []
        for _ in range(10000):
            c = g.next()
            if c is None:
                break
            out.append(tuple(c))
        ctx.event("choice", len(out))
        ctx.state("c", a, b)
        ctx.check(out == list(itertools.combinations(range(a), b)), "choice-generator", lambda: f"{a} choose {b}: {out}")
        ctx.check(g.next() is None, "choice-generator/after-end")
    d = int(r.integers(-1, 9))
    g, out = DepthChoiceGenerator(a, d), []
    for _ in range(10000):
        c = g.next()
        if c is None:
            break
        out.append(tuple(c))
    ctx.event("depth_choice", len(out))
    ctx.state("d", a, d)
    top = a if d == -1 else min(d, a)
    ctx.check(out == [c for k in range(top + 1) for c in itertools.combinations(range(a), k)], "depth-choice-generator", lambda: f"{a} to depth {d}: {out}")
    L = [int(v) for v in r.choice(50, int(r.integers(0, 7)), replace=False)]
    want = {frozenset(c) for k in range(len(L) + 1) for c in itertools.combinations(L, k)}
    for name, f in (("powerset", Helper.powerset), ("Combinatorial", Combinatorial)):
        ok, P = ctx.call(name, f, list(L) if name == "powerset" else tuple(L))
        if ok:
            ctx.event(name, len(P))
            ctx.check(len(P) == len(want) and {frozenset(s) for s in P} == want, name, lambda: f"{L}: {P}")
    pools = [[int(v) for v in r.choice(9, int(r.integers(0, 4)), replace=False)] for _ in range(int(r.integers(0, 4)))]
    P = Helper.cartesian_product(pools)
    ctx.check(sorted(map(tuple, P)) == sorted(itertools.product(*pools)), "cartesian_product", lambda: f"{pools}: {P}")
    A, B = ([int(v) for v in r.integers(0, 6, int(r.integers(0, 6)))] for _ in range(2))
    ctx.check(sorted(Helper.list_union(A, B)) == sorted(set(A) | set(B)) and sorted(Helper.list_intersection(A, B)) == sorted(set(A) & set(B))
              and sorted(Helper.list_minus(A, B)) == sorted(set(A) - set(B)), "list-sets", lambda: f"{A} {B}")
    D = {i: float(v) for i, v in enumerate(r.integers(0, 5, 6))}
    for down in (False, True):
        S = Helper.sort_dict_ascending(D, down)
        v = list(S.values())
        ctx.check(S == D and v == sorted(v, reverse=down), "sort_dict", lambda: f"{D}: {S}")


def queue(ctx):
    """against a plain dictionary: pop gives a least entry, deleted and popped entries never return"""
    r = ctx.rng
    q, model, k = PriorityQueue(), {}, 0
    log = []
    for _ in range(int(r.integers(1, 40))):
        op = r.random()
        if op < .5 or not model:
            key = tuple(sorted(int(v) for v in r.choice(30, int(r.integers(0, 4)), replace=False)))
            if key in model:
                continue
            w = float(r.integers(0, 6))
            q.push((key, (k,)), w)
            model[key] = w
            k += 1
            log.append(("push", key, w))
        elif op < .7:
            key = list(model)[int(r.integers(len(model)))]
            q.delete(key)
            del model[key]
            log.append(("delete", key))
        elif op < .8:
            key = list(model)[int(r.integers(len(model)))]
            e = q.get(key)
            ctx.event("get")
            ctx.check(e is not None and e[0] == model[key] and e[1][0] == key, "queue/get", lambda: f"{key}: {e}, {log}")
        else:
            ok, g = ctx.call("pop", q.pop)
            if not ok:
                return
            w, item = g
            log.append(("pop", item[0], w))
            ctx.event("pop")
            if not ctx.check(item[0] in model and w == model[item[0]] == min(model.values()), "queue/pop", lambda: f"{log}, held {model}"):
                return
            del model[item[0]]
        ctx.check(len(q) == len(model) and q.empty() == (not model), "queue/length", lambda: f"{len(q)} for {model}, {log}")
    ctx.state(log)
    ctx.event("ops", len(log))
    while model:
        w, item = q.pop()
        if not ctx.check(item[0] in model and w == min(model.values()), "queue/drain", lambda: f"{item} {w}, held {model}, {log}"):
            return
        del model[item[0]]
    try:
        q.pop()
        ctx.fail("queue/pop-empty", str(log))
    except KeyError:
        ctx.event("empty_refused")


def matrix(r, n, kinds):
    """adjacency matrix in the helper encoding: [i,j] = mark at j: 1 arrow, 0 tail, -1 none"""
    A = -np.ones((n, n))
    np.fill_diagonal(A, np.nan)
    M = {}
    for i, j in itertools.combinations(range(n), 2):
        if r.random() < .5:
            k = str(r.choice(kinds))
            M[i, j] = k
            A[i, j], A[j, i] = {"->": (1, 0), "<-": (0, 1), "--": (0, 0), "<>": (1, 1)}[k]
    return A, M


def helpers(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    A, M = matrix(r, n, ["->", "<-", "--", "<>"])
    A0 = A.copy()
    adj = {(i, j) for i, j in M} | {(j, i) for i, j in M}
    di = {(i, j) for (i, j), k in M.items() if k == "->"} | {(j, i) for (i, j), k in M.items() if k == "<-"}
    un = {p for (i, j), k in M.items() if k == "--" for p in ((i, j), (j, i))}
    bi = {p for (i, j), k in M.items() if k == "<>" for p in ((i, j), (j, i))}
    ctx.note({"n": n, "edges": {f"{i},{j}": k for (i, j), k in M.items()}})
    if M:
        ctx.state(n, sorted(M.items()))
    I = lambda L: sorted(tuple(int(v) for v in t) for t in L)

    def eq(name, got, want):
        ctx.event("finder")
        ctx.check(I(got) == sorted(want), name, lambda: f"{I(got)}, should be {sorted(want)}")

    eq("find_adj", set(Helper.find_adj(A)), adj)
    eq("find_fully_directed", Helper.find_fully_directed(A), di)
    eq("find_undirected", Helper.find_undirected(A), un)
    eq("find_bi_directed", Helper.find_bi_directed(A), bi)
    tri = [(i, j, k) for i, j, k in itertools.permutations(range(n), 3) if {(i, j), (j, k), (i, k)} <= adj]
    ut = [(i, j, k) for i, j, k in itertools.permutations(range(n), 3) if {(i, j), (j, k)} <= adj and (i, k) not in adj]
    eq("find_triangles", Helper.find_triangles(A), tri)
    eq("find_unshielded_triples", Helper.find_unshielded_triples(A), ut)
    eq("find_uc", Helper.find_uc(A), [(i, j, k) for i, j, k in ut if i < k and (i, j) in di and (k, j) in di])
    eq("find_kites", Helper.find_kites(A), [(i, j, k, l) for i, j, k, l in itertools.permutations(range(n), 4)
                                            if j < k and {(i, j), (j, l), (l, k), (k, i), (i, l)} <= adj and (j, k) not in adj])
    deg = [sum((i, j) in adj for j in range(n)) for i in range(n)]
    ctx.check(Helper.degree_graph(A) == max(deg), "degree_graph", lambda: f"{Helper.degree_graph(A)} should be {max(deg)}")
    for i in range(n):
        ctx.check(sorted(int(v) for v in Helper.neighbors(A, i)) == [j for j in range(n) if (i, j) in adj], "neighbors")
        for j in range(n):
            if i != j:
                ctx.check((bool(Helper.is_fully_directed(A, i, j)), bool(Helper.is_undirected(A, i, j)), bool(Helper.is_bi_directed(A, i, j)), bool(Helper.is_adj(A, i, j)))
                          == ((i, j) in di, (i, j) in un, (i, j) in bi, (i, j) in adj), "is_*", f"{i},{j}")
    x, y = (int(v) for v in r.choice(n, 2, replace=False))
    cs = {frozenset(c) for v in (x, y) for N in [[j for j in range(n) if (v, j) in adj]] for k in range(len(N) + 1) for c in itertools.combinations(N, k)}
    F = lambda L: {frozenset(int(v) for v in s) for s in L}
    ctx.check(F(Helper.find_all_conditioning_sets(A, x, y)) == cs, "find_all_conditioning_sets")
    for z in range(n):
        ctx.check(F(Helper.find_conditioning_sets_with_middle(A, x, y, z)) == {s for s in cs if z in s}
                  and F(Helper.find_conditioning_sets_without_middle(A, x, y, z)) == {s for s in cs if z not in s}, "conditioning_sets_middle")
    g = Helper.adjmat2digraph(A)
    ctx.check(set(g.nodes) == set(range(n)) and {(int(a), int(b)): d["color"] for a, b, d in g.edges(data=True)}
              == {**{p: "g" for p in un}, **{p: "b" for p in di}, **{p: "r" for p in bi}}, "adjmat2digraph")
    ctx.check(np.array_equal(A, A0, equal_nan=True), "helpers/matrix-changed")
    # TETRAD text round trip
    fd, path = tempfile.mkstemp(suffix=".txt")
    os.close(fd)
    try:
        ok, _ = ctx.call("adjmat2tetrad", Helper.adjmat2tetrad, path, A)
        if ok:
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                ok, B = ctx.call("tetrad2adjmat", Helper.tetrad2adjmat, path)
            if ok:
                ctx.event("round_trips")
                ctx.check(np.array_equal(A, B, equal_nan=True), "tetrad-round-trip", lambda: f"{A.tolist()} came back as {B.tolist()}")
    finally:
        os.unlink(path)


def pattern(ctx):
    """dag2pattern gives the CPDAG"""
    r = ctx.rng
    n = int(r.integers(2, 7))
    E = gen.rand_dag(r, n)
    A = -np.ones((n, n))
    np.fill_diagonal(A, np.nan)
    for i, j in E:
        A[i, j], A[j, i] = 1, 0
    A0 = A.copy()
    ok, P = ctx.call("dag2pattern", Helper.dag2pattern, A)
    if not ok:
        return
    D, U = ref.cpdag(n, E)
    D, U = set(map(tuple, D)), {tuple(sorted(u)) for u in U}
    got_d = {(i, j) for i in range(n) for j in range(n) if P[i, j] == 1 and P[j, i] == 0}
    got_u = {(i, j) for i in range(n) for j in range(i + 1, n) if P[i, j] == 0 and P[j, i] == 0}
    ctx.event("patterns")
    if E:
        ctx.state(n, sorted(E))
    ctx.note({"edges": sorted(E)})
    ctx.check(got_d == D and got_u == U, "dag2pattern", lambda: f"{sorted(got_d)} {sorted(got_u)}, should be {sorted(D)} {sorted(U)}")
    ctx.check(np.array_equal(A, A0, equal_nan=True), "dag2pattern/matrix-changed")


def orders(ctx):
    r = ctx.rng
    n = int(r.integers(1, 9))
    E = gen.rand_dag(r, n) if n > 1 else set()
    names = [f"X{i + 1}" for i in range(n)]
    G, _ = lib.dag_of(names, E, cls=Dag)
    nodes = {v.get_name(): v for v in G.get_nodes()}
    u = GraphUtils()
    ok, o = ctx.call("get_causal_order", u.get_causal_order, G)
    if ok:
        pos = {v.get_name(): k for k, v in enumerate(o)}
        ctx.event("orders")
        ctx.check(sorted(pos) == sorted(names) and len(o) == n and all(pos[names[i]] < pos[names[j]] for i, j in E), "causal-order", lambda: f"edges {sorted(E)}: {[v.get_name() for v in o]}")
        ctx.check([v.get_name() for v in G.get_nodes()] == [v for v in nodes], "causal-order/graph-changed")
    if E:
        ctx.state(n, sorted(E))
    R = nx.DiGraph(list(E))
    R.add_nodes_from(range(n))
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.event("path_queries")
                got = u.exists_directed_path_from_to_breadth_first(nodes[names[i]], nodes[names[j]], G)
                ctx.check(bool(got) == nx.has_path(R, i, j), "directed-path", lambda: f"{i}->{j} in {sorted(E)}: {got}")


def datasets(ctx):
    r = ctx.rng
    name = str(r.choice(["sachs", "boston_housing", "airfoil"]))
    N, d = int(r.integers(2, 8)), int(r.integers(1, 5))
    X = np.round(r.normal(size=(N, d)) * 10, 4)
    lab = [f"v{i}" if r.random() < .5 else f"Some_{i}" for i in range(d)]
    text = "\t".join(lab) + "\n" + "\n".join("\t".join(repr(float(v)) for v in row) for row in X) + "\n"
    asked = []

    def fake(url, *a, **k):
        asked.append(url if isinstance(url, str) else url.full_url)
        return io.BytesIO(text.encode())

    old = Dataset.urllib.request.urlopen
    Dataset.urllib.request.urlopen = fake
    try:
        ok, g = ctx.call("load_dataset", Dataset.load_dataset, name)
    finally:
        Dataset.urllib.request.urlopen = old
    if not ok:
        return
    D, L = g
    ctx.event("datasets")
    ctx.state(name, N, d, lab)
    ctx.check(len(asked) == 1 and name.split("_")[0] in asked[0], "dataset/url", lambda: f"{name}: {asked}")
    ctx.check(list(L) == lab, "dataset/labels", lambda: f"{L}, should be {lab}")
    ctx.check(np.array_equal(np.asarray(D).reshape(N, -1), X), "dataset/values", lambda: f"{D}, should be {X}")
    try:
        Dataset.load_dataset("no such")
        ctx.fail("dataset/accepts-unknown")
    except ValueError:
        ctx.event("unknown_refused")


def plots(ctx):
    """the time-series plot links exactly the given entries and lists the variables in the given order"""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot
    from causallearn.utils import TimeseriesVisualization as T
    r = ctx.rng
    d, L = int(r.integers(1, 5)), int(r.integers(1, 4))
    C = r.normal(size=(d, d, L)) * (r.random((d, d, L)) < .4)
    names = [f"v{i}" for i in range(d)]
    order = [int(v) for v in r.permutation(d)] if r.random() < .7 else None
    seen = {}

    def draw(G, pos=None, **k):
        seen["G"], seen["pos"] = G, pos

    old = T.nx.draw, T.pyplot.show
    T.nx.draw, T.pyplot.show = draw, lambda *a, **k: seen.setdefault("text", [(t.get_text(), t.get_position()) for t in pyplot.gcf().axes[0].texts])
    try:
        with np.errstate(all="ignore"):
            ok, _ = ctx.call("plot_time_series", T.plot_time_series, coef_matrix=C, var_names=names, order=order) if r.random() < .5 else \
                ctx.call("plot_time_series", T.plot_time_series, link_matrix=(np.abs(C) >= .001).astype(int), var_names=names, order=order)
    finally:
        T.nx.draw, T.pyplot.show = old
        pyplot.close("all")
    if not ok or "G" not in seen:
        return
    ctx.event("plots")
    ctx.state(d, L, order, np.argwhere(C).tolist())
    want = {(i * L + t - int(tau), j * L + t) for i, j, tau in np.argwhere(np.abs(C) >= .001) for t in range(L) if t >= tau}
    ctx.check(set((int(a), int(b)) for a, b in seen["G"].edges) == want, "plot/links", lambda: f"{sorted(seen['G'].edges)}, should be {sorted(want)}")
    pos = seen["pos"]
    o = order if order is not None else list(range(d))
    ctx.event("ordered" if order is not None else "default_order")
    got = sorted(range(d), key=lambda v: -float(pos[v * L][1]))
    ctx.check(got == o, "plot/order", lambda: f"variables from top to bottom {got}, should be {o}")
    txt = {t: p for t, p in seen["text"] if t in names}
    for i in range(d):
        ctx.check(names[i] in txt and abs(txt[names[i]][1] - pos[i * L][1]) < 1e-9, "plot/labels", lambda: f"{names[i]} at {txt.get(names[i])}, its row at {pos[i * L]}")
    if L > 1:
        for i in range(d):
            xs = [float(pos[i * L + t][0]) for t in range(L)]
            ctx.check(xs == sorted(xs) and len(set(xs)) == L, "plot/time", lambda: str(xs))


STREAMS = {
    "choices": Stream(choices, 600, 6000, need=["choice", "depth_choice", "powerset", "Combinatorial"]),
    "queue": Stream(queue, 400, 10000, need=["pop", "get", "empty_refused"]),
    "helpers": Stream(helpers, 300, 6000, need=["finder", "round_trips"]),
    "pattern": Stream(pattern, 400, 8000, need=["patterns"]),
    "orders": Stream(orders, 300, 6000, need=["orders", "path_queries"]),
    "datasets": Stream(datasets, 60, 300, need=["datasets", "unknown_refused"]),
    "plots": Stream(plots, 60, 600, need=["plots", "ordered", "default_order"], timeout=60),
}
