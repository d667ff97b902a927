"""Separation queries on graphs agree with graphical separation and always answer."""
import itertools

from causallearn.graph.NodeType import NodeType
from causallearn.utils.GraphUtils import GraphUtils

from .. import gen, lib, ref
from ..core import Stream

ID = "G02"
RULE = ("a case = one graph (DAG, or ancestral mixed graph obtained by marginalising a DAG) and all pairs with sampled or all "
        "conditioning sets (or one separating-set search per pair); non-trivial when both separated and connected answers "
        "occur; distinct by graph")
ASSUMPTIONS = ["reference: moralised-ancestral-graph criterion for DAGs, active-path state search for mixed graphs; they agree with each other and with networkx"]


def queries(r, n, k=60):
    out = []
    for x, y in itertools.permutations(range(n), 2):
        rest = [v for v in range(n) if v not in (x, y)]
        for s in range(len(rest) + 1):
            for Z in itertools.combinations(rest, s):
                out.append((x, y, Z))
    if len(out) > k:
        out = [out[int(i)] for i in r.permutation(len(out))[:k]]
    return out


def dconn(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    cls = lib.Dag if r.random() < .5 else lib.GeneralGraph
    g, nodes = lib.dag_of(names, E, cls, [sorted(E)[int(i)] for i in r.permutation(len(E))])
    ctx.note({"n": n, "E": lib.E_(E), "class": cls.__name__})
    ans = set()
    for x, y, Z in queries(r, n):
        want = not ref.dsep(n, E, x, y, set(Z))
        got = g.is_dconnected_to(nodes[x], nodes[y], [nodes[z] for z in Z])
        ctx.event("connected" if want else "separated")
        ans.add(want)
        ctx.check(bool(got) == want, "dag/dconnected", f"{x} {y} | {Z} in {lib.E_(E)}: connected={got}, should be {want}")
        ctx.check(g.is_dseparated_from(nodes[x], nodes[y], [nodes[z] for z in Z]) == (not want), "dag/dseparated", f"{x} {y} | {Z} in {lib.E_(E)}")
    if len(ans) == 2:
        ctx.state(n, sorted(E))


def rand_mag(r):
    while True:
        n = int(r.integers(4, 9))
        E = gen.rand_dag(r, n)
        nl, ns = int(r.integers(0, 4)), int(r.integers(0, 2))
        if n - nl - ns < 3 or n - nl - ns > 6:
            continue
        p = [int(v) for v in r.permutation(n)]
        return ref.mag_from_dag(n, E, p[:nl], p[nl:nl + ns])[0]


def mconn(ctx):
    r = ctx.rng
    m = rand_mag(r)
    names = gen.names(r, m.n)
    g, nodes = lib.general_of(names, m)
    ctx.note({"mag": m.show()})
    ans = set()
    ctx.check(lib.marks(g).m == m.m, "mag/build", f"graph {lib.marks(g).show()} built from {m.show()}")
    if ctx.fails:
        return
    for x, y, Z in queries(r, m.n):
        want = not ref.msep(m, x, y, set(Z))
        got = g.is_dconnected_to(nodes[x], nodes[y], [nodes[z] for z in Z])
        ctx.event("connected" if want else "separated")
        ans.add(want)
        ctx.check(bool(got) == want, "mag/dconnected", f"{x} {y} | {Z} in {m.show()}: connected={got}, should be {want}")
    if len(ans) == 2:
        ctx.state(m.key())


def sepset(ctx):
    r = ctx.rng
    n = int(r.integers(3, 8))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    lat = set()
    cls = lib.Dag if r.random() < .5 else lib.GeneralGraph
    g, nodes = lib.dag_of(names, E, cls)
    if r.random() < .4:
        lat = {int(v) for v in r.permutation(n)[: int(r.integers(1, 3))]}
        for v in lat:
            nodes[v].set_node_type(NodeType.LATENT)
    ix = {x: i for i, x in enumerate(names)}
    ctx.note({"n": n, "E": lib.E_(E), "latent": sorted(lat), "class": cls.__name__})
    for x, y in itertools.permutations([v for v in range(n) if v not in lat], 2):
        S = g.get_sepset(nodes[x], nodes[y])
        adj = (x, y) in E or (y, x) in E
        if S is None:
            ctx.event("sepset_none")
            if not lat:
                ctx.check(adj, "sepset/missed", f"no separating set reported for non-adjacent {x},{y} in {lib.E_(E)}")
        else:
            Z = {ix[v.get_name()] for v in S}
            ctx.event("sepset_found")
            ctx.check(not (Z & {x, y}) and ref.dsep(n, E, x, y, Z), "sepset/unsound", f"sepset({x},{y})={sorted(Z)} does not separate them in {lib.E_(E)}")
            ctx.check(not (Z & lat), "sepset/latent", f"sepset({x},{y})={sorted(Z)} contains latent {sorted(Z & lat)} in {lib.E_(E)}")
    ctx.state(n, sorted(E), sorted(lat))


def mag_sepset(ctx):
    r = ctx.rng
    m = rand_mag(r)
    names = gen.names(r, m.n)
    g, nodes = lib.general_of(names, m)
    ix = {x: i for i, x in enumerate(names)}
    ctx.note({"mag": m.show()})
    for x, y in itertools.permutations(range(m.n), 2):
        S = g.get_sepset(nodes[x], nodes[y])
        if S is None:
            ctx.event("sepset_none")
            ctx.check(m.adj(x, y), "mag_sepset/missed", f"no separating set reported for non-adjacent {x},{y} in MAG {m.show()}")
        else:
            Z = {ix[v.get_name()] for v in S}
            ctx.event("sepset_found")
            ctx.check(ref.msep(m, x, y, Z), "mag_sepset/unsound", f"sepset({x},{y})={sorted(Z)} does not separate them in {m.show()}")
    ctx.state(m.key())


def patterns(ctx):
    """unshielded triples, triangles and kites enumerated from a graph are exactly the ones in it"""
    r = ctx.rng
    n = int(r.integers(3, 7))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    g, nodes = lib.dag_of(names, E)
    ix = {x: i for i, x in enumerate(names)}
    adj = {frozenset(e) for e in E}

    def idx(t):
        return tuple(ix[v.get_name()] for v in t)
    u = GraphUtils()
    A = lambda a, b: frozenset((a, b)) in adj
    ut = {(a, b, c) for a, b, c in itertools.permutations(range(n), 3) if A(a, b) and A(b, c) and not A(a, c)}
    tr = {(a, b, c) for a, b, c in itertools.permutations(range(n), 3) if A(a, b) and A(b, c) and A(a, c)}
    ki = {(i, j, k, l) for i, j, k, l in itertools.permutations(range(n), 4)
          if j < k and A(i, j) and A(j, l) and A(l, k) and A(k, i) and A(i, l) and not A(j, k)}
    ctx.note({"n": n, "E": lib.E_(E)})
    ctx.event("pattern_sets")
    got = {idx(t) for t in u.find_unshielded_triples(g)}
    ctx.check(got == ut, "patterns/unshielded", lambda: f"{sorted(got)} vs {sorted(ut)} in {lib.E_(E)}")
    got = {idx(t) for t in u.find_triangles(g)}
    ctx.check(got == tr, "patterns/triangles", lambda: f"{sorted(got)} vs {sorted(tr)} in {lib.E_(E)}")
    got = {idx(t) for t in u.find_kites(g)}
    ctx.check(got == ki, "patterns/kites", lambda: f"{sorted(got)} vs {sorted(ki)} in {lib.E_(E)}")
    # the search graph's own enumerators
    from causallearn.graph.GraphClass import CausalGraph
    from .C02 import build_cg
    D = {e for e in E if r.random() < .6}
    cg = build_cg(n, D, {frozenset(e) for e in E - D}, r)
    i3 = lambda L: {tuple(int(v) for v in t) for t in L}
    ctx.check(i3(cg.find_unshielded_triples()) == ut, "patterns/cg_unshielded", "")
    ctx.check(i3(cg.find_triangles()) == tr, "patterns/cg_triangles", "")
    ctx.check(i3(cg.find_kites()) == ki, "patterns/cg_kites", "")
    ctx.check(i3(cg.find_adj()) == {(a, b) for a, b in itertools.permutations(range(n), 2) if A(a, b)}, "patterns/cg_adj", "")
    for v in range(n):
        ctx.check(sorted(int(w) for w in cg.neighbors(v)) == [w for w in range(n) if A(v, w)], "patterns/cg_neighbors", "")
    ctx.check(int(cg.max_degree()) == max(sum(v in s for s in adj) for v in range(n)), "patterns/cg_max_degree", "")
    if tr and ut:
        ctx.state(n, sorted(E))


STREAMS = {
    "dag": Stream(dconn, 400, 6000, need=["connected", "separated"], timeout=10, steps=3_000_000),
    "mag": Stream(mconn, 400, 6000, need=["connected", "separated"], timeout=10, steps=3_000_000),
    "sepset": Stream(sepset, 400, 6000, need=["sepset_none", "sepset_found"], timeout=20, steps=5_000_000),
    "mag_sepset": Stream(mag_sepset, 300, 4000, need=["sepset_none", "sepset_found"], timeout=20, steps=5_000_000),
    "patterns": Stream(patterns, 300, 3000, need=["pattern_sets"], timeout=30),
}
