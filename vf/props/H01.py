"""GIN and GIN_MI: clusters of measured variables and the order of the latent ones."""
import itertools

import networkx as nx
import numpy as np
from scipy.stats import chi2

from causallearn.graph.Endpoint import Endpoint
from causallearn.graph.NodeType import NodeType
from causallearn.search.HiddenCausal.GIN import GIN as mod

from .. import gen
from ..core import Stream
from .L06 import hsic_ref
from .T03 import kci_ref

ID = "H01"
RULE = ("a case = data from a latent-variable model with shuffled columns (or unstructured data), run through one method; non-trivial when clusters come out; "
        "distinct by clusters and order")
ASSUMPTIONS = ["runs in which a combined p-value is within 1e-4 (relative 1e-3) of alpha are left open",
               "the true structure is demanded for exponential noise and strong loadings; a wrong answer counts when repeated on fresh samples"]

SHAPES = {"one": (1, []), "pair": (2, [(0, 1)]), "chain": (3, [(0, 1), (1, 2)]), "fork": (3, [(0, 1), (0, 2)]), "tri": (3, [(0, 1), (0, 2), (1, 2)])}


def model(r, shape, N, sizes=(2, 3), noise="exp"):
    n, E = SHAPES[shape]
    draw = {"exp": lambda: r.exponential(1, N) - 1, "uniform": lambda: r.uniform(-1, 1, N)}[noise]
    w = lambda: r.uniform(1.2, 1.8)
    L = []
    for i in range(n):
        L.append(draw() + sum((w() * L[a] for a, b in E if b == i), np.zeros(N)))
    cols, own = [], []
    for i in range(n):
        k = int(r.choice(sizes)) if n > 1 else 4
        own.append(list(range(len(cols), len(cols) + k)))
        cols += [w() * L[i] + .2 * draw() for _ in range(k)]
    X = np.array(cols).T
    X = (X - X.mean(0)) / X.std(0)
    p = r.permutation(X.shape[1])
    inv = {int(v): k for k, v in enumerate(p)}
    return X[:, p], [sorted(inv[c] for c in g) for g in own], E


def noise_of(X, cov, Y, Z):
    """the combination of Y that is uncorrelated with Z"""
    return X[:, Y] @ np.linalg.svd(cov[np.ix_(Z, Y)])[2][-1]


def fisher(ps):
    return chi2.sf(-2 * sum(np.log(max(p, 1e-5)) for p in ps), 2 * len(ps))


def halves(c):
    k = (len(c) + 1) // 2
    return list(c[:k]), list(c[k:])


def merge(cl):
    g = nx.Graph()
    for c in cl:
        g.add_nodes_from(c)
        g.add_edges_from(zip(c, c[1:]))
    return [sorted(c) for c in nx.connected_components(g)]


def graph_of(ctx, key, G, order, rest, n):
    """latent nodes, membership edges, edges among latents"""
    names = [x.get_name() for x in G.get_nodes()]
    lat = [x for x in G.get_nodes() if x.get_node_type() == NodeType.LATENT]
    groups = list(order) + list(rest)
    measured = sorted(x for x in names if x.startswith("X"))
    want_m = sorted(f"X{i + 1}" for i in range(n))
    if not ctx.check(len(set(names)) == len(names) and measured == want_m and len(lat) == len(groups) and all(x.get_name().startswith("L") for x in lat), f"{key}/nodes", lambda: f"{names}, groups {groups}"):
        return
    edges = {}
    for e in G.get_graph_edges():
        a, b = e.get_node1().get_name(), e.get_node2().get_name()
        t = (e.get_endpoint1(), e.get_endpoint2())
        if t == (Endpoint.ARROW, Endpoint.TAIL):
            a, b, t = b, a, (Endpoint.TAIL, Endpoint.ARROW)
        edges[a, b] = t
    D, U = (Endpoint.TAIL, Endpoint.ARROW), (Endpoint.TAIL, Endpoint.TAIL)
    ch = {x.get_name(): sorted(int(b[1:]) - 1 for (a, b), t in edges.items() if a == x.get_name() and b[0] == "X" and t == D) for x in lat}
    of = {}
    for name, c in ch.items():
        of[tuple(c)] = name
    if not ctx.check(sorted(ch.values()) == sorted(sorted(map(int, g)) for g in groups), f"{key}/membership", lambda: f"{ch}, groups {groups}"):
        return
    want = {}
    for g in groups:
        for i in g:
            want[of[tuple(sorted(g))], f"X{i + 1}"] = D
    for a, b in itertools.combinations(range(len(groups)), 2):
        x, y = of[tuple(sorted(groups[a]))], of[tuple(sorted(groups[b]))]
        want[x, y] = D if a < len(order) else U
    got = {(k if t != U or k in want else k[::-1]): t for k, t in edges.items()}
    ctx.event("graphs")
    ctx.check(got == want, f"{key}/edges", lambda: f"{got}, should be {want}")


def gin(ctx):
    r = ctx.rng
    shape = str(r.choice(list(SHAPES)))
    N = int(r.choice([60, 150, 300]))
    if r.random() < .25:
        X, cl = r.exponential(1, (N, int(r.integers(2, 7)))), []
        if r.random() < .5:
            X = X @ r.normal(size=(X.shape[1], X.shape[1]))
    else:
        X, cl, _ = model(r, shape, N, noise=str(r.choice(["exp", "uniform"])))
    n = X.shape[1]
    method = str(r.choice(["kci", "hsic", "hsic"]))
    alpha = float(r.choice([.01, .05, .2]))
    X0 = X.copy()
    ok, g = ctx.call("GIN", mod.GIN, X, indep_test_method=method, alpha=alpha)
    if not ok:
        return
    G, order = g
    order = [[int(v) for v in c] for c in order]
    ctx.note({"n": n, "N": N, "shape": shape, "truth": cl, "method": method, "alpha": alpha, "order": order})
    ctx.check(np.array_equal(X, X0), "gin/data-changed")
    cov = np.cov(X.T)
    memo = {}

    def p(e, z):
        return hsic_ref(X[:, z], e)[1] if method == "hsic" else kci_ref(X[:, [z]], e[:, None], None, {})[1]

    def holds(Y, Z):
        k = (tuple(Y), tuple(Z))
        if k not in memo:
            e = noise_of(X, cov, list(Y), list(Z))
            v = fisher([p(e, z) for z in Z])
            if abs(v - alpha) < 1e-4 + 1e-3 * alpha:
                raise StopIteration
            memo[k] = v >= alpha
        return memo[k]

    try:
        left, clusters, size = set(range(n)), [], 2
        while size < len(left):
            c = merge([c for c in itertools.combinations(sorted(left), size) if holds(c, sorted(left - set(c)))])
            clusters += c
            left -= {v for g in c for v in g}
            size += 1
        key = sorted(sorted(c) for c in clusters)
        ctx.event("gin:" + method)
        ctx.event("clusters", len(clusters))
        if clusters:
            ctx.state(key, order)
        rest = [c for c in key if c not in [sorted(o) for o in order]]
        if not ctx.check(len(order) + len(rest) == len(key) and all(sorted(o) in key for o in order), "gin/clusters", lambda: f"order {order}, clusters should be {key}"):
            return
        # the order: each next one is a root among the remaining given those before it, and none of the rest is
        split = {tuple(sorted(c)): halves(next((o for o in order if sorted(o) == c), c)) for c in key}

        def root(c, others, before):
            Y = [v for k in before for v in split[tuple(sorted(k))][0]]
            Z = [v for k in before for v in split[tuple(sorted(k))][1]]
            a, b = split[tuple(sorted(c))]
            return all(holds(Y + a + split[tuple(sorted(o))][0], Z + b) for o in others)

        rem = list(key)
        for k, o in enumerate(order):
            rem = [c for c in rem if c != sorted(o)]
            ctx.event("root_steps")
            ctx.check(root(o, rem, order[:k]), "gin/not-a-root", lambda: f"{o} after {order[:k]} before {rem}")
        for c in rest:
            ctx.event("unordered")
            ctx.check(not root(c, [o for o in rest if o != c], order), "gin/root-left-out", lambda: f"{c} is a root among {rest} after {order}")
    except StopIteration:
        ctx.event("near")
        groups = {}
        for e in G.get_graph_edges():
            a, b = e.get_node1().get_name(), e.get_node2().get_name()
            if a[0] != b[0]:
                groups.setdefault(a if a[0] == "L" else b, []).append(int((a if a[0] == "X" else b)[1:]) - 1)
        rest = [sorted(v) for v in groups.values() if sorted(v) not in [sorted(o) for o in order]]
    graph_of(ctx, "gin", G, order, rest, n)


def gin_mi(ctx):
    r = ctx.rng
    shape = str(r.choice(list(SHAPES)))
    N = int(r.choice([60, 200, 400]))
    if r.random() < .25:
        X, cl = r.exponential(1, (N, int(r.integers(3, 7)))), []
    else:
        X, cl, _ = model(r, shape, N, noise=str(r.choice(["exp", "uniform"])))
    n = X.shape[1]
    X0 = X.copy()
    ok, g = ctx.call("GIN_MI", mod.GIN_MI, X)
    if not ok:
        return
    G, order = g
    order = [[int(v) for v in c] for c in order]
    ctx.note({"n": n, "N": N, "shape": shape, "truth": cl, "order": order})
    ctx.check(np.array_equal(X, X0), "mi/data-changed")
    cov = np.cov(X.T)
    dep = {}
    for a, b in itertools.combinations(range(n), 2):
        Z = [z for z in range(n) if z not in (a, b)]
        e = noise_of(X, cov, [a, b], Z)
        dep[a, b] = dep[b, a] = float(np.mean([hsic_ref(e, X[:, z])[0] for z in Z]))
    pairs, near = [], False
    for i in range(n):
        s = sorted((dep[i, j], j) for j in range(n) if j != i)
        near |= len(s) > 1 and s[1][0] - s[0][0] < 1e-9 * (1 + s[0][0])
        pairs.append((i, s[0][1]))
    if near:
        ctx.event("near")
    else:
        want = sorted(merge(pairs))
        ctx.event("mi")
        ctx.event("mi_clusters", len(want))
        ctx.state(want, order)
        ctx.check(sorted(sorted(o) for o in order) == want, "mi/clusters", lambda: f"{order}, should be {want}")
    graph_of(ctx, "mi", G, order, [], n)


def truth(ctx):
    r = ctx.rng
    method = str(r.choice(["kci", "hsic", "mi", "mi"]))
    shape = str(r.choice(["pair", "chain", "fork", "tri"]))
    bad = None
    for _ in range(4):
        X, cl, E = model(r, shape, 500, sizes=(2,) if method != "mi" else (2, 3))
        ok, g = ctx.call("GIN", mod.GIN_MI, X) if method == "mi" else ctx.call("GIN", mod.GIN, X, method, .001)
        if not ok:
            return
        order = [sorted(map(int, c)) for c in g[1]]
        ctx.event("truth:" + method)
        ctx.event("truth:" + shape)
        if sorted(order) == sorted(cl):
            at = [order.index(c) for c in cl]
            if all(at[a] < at[b] for a, b in E):
                ctx.state(method, shape, cl)
                return
            bad = (f"{'mi' if method == 'mi' else 'gin'}/wrong-order", f"{method} {shape}: {order}, latent edges {E} among {cl}")
        else:
            bad = (f"{'mi' if method == 'mi' else 'gin'}/wrong-clusters", f"{method} {shape}: {order}, true {cl}")
        ctx.event("resampled")
    ctx.fail(*bad)


def merging(ctx):
    r = ctx.rng
    n = int(r.integers(1, 12))
    cl = [tuple(int(v) for v in r.choice(n, int(r.integers(1, min(n, 4) + 1)), replace=False)) for _ in range(int(r.integers(0, 9)))]
    ok, g = ctx.call("merge_overlaping_cluster", mod.merge_overlaping_cluster, list(cl))
    if ok:
        ctx.event("merged")
        ctx.state(cl)
        ctx.check(sorted(sorted(map(int, c)) for c in g) == sorted(merge(cl)), "merge", lambda: f"{cl}: {g}")
    x, k = list(range(int(r.integers(1, 9)))), int(r.integers(1, 4))
    ok, g = ctx.call("array_split", mod.array_split, x, k)
    if ok:
        ctx.check([list(map(int, a)) for a in np.array_split(x, k)] == [list(a) for a in g], "array_split", lambda: f"{len(x)} into {k}: {g}")


STREAMS = {
    "gin": Stream(gin, 120, 4000, need=["gin:kci", "gin:hsic", "clusters", "root_steps", "unordered", "graphs"], timeout=90),
    "gin_mi": Stream(gin_mi, 80, 3000, need=["mi", "mi_clusters", "graphs"], timeout=90),
    "truth": Stream(truth, 80, 1500, need=["truth:kci", "truth:hsic", "truth:mi", "truth:chain"], timeout=120),
    "merge": Stream(merging, 300, 5000, need=["merged"]),
}
