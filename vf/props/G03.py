"""DAG -> CPDAG, PDAG -> DAG and the Markov-equivalence test agree with the definitions."""
import itertools

import numpy as np

from causallearn.graph.Dag import Dag
from causallearn.graph.Edge import Edge
from causallearn.graph.Endpoint import Endpoint
from causallearn.utils.DAG2CPDAG import dag2cpdag
from causallearn.utils.MECCheck import mec_check
from causallearn.utils.PDAG2DAG import pdag2dag

from .. import gen, lib, ref
from ..core import Stream

ID = "G03"
RULE = ("a case = one DAG (all DAGs on up to 4 nodes once per run in 'small', random up to 9 nodes otherwise) or PDAG; non-trivial when it "
        "has at least one edge; distinct by edge set and node order")
ASSUMPTIONS = ["reference CPDAG = v-structures closed under Meek R1-R3, itself equal to brute-force enumeration of the class for up to 5 nodes (cross-checked in every run)"]


def snap(g):
    return (tuple(x.get_name() for x in g.get_nodes()), g.graph.tobytes(), g.graph.shape)


def as_du(g, names):
    m = lib.marks(g, names)
    D = m.directed()
    U = {frozenset(e) for e in m.edges() if m.m[e[0]][e[1]] == ref.TAIL and m.m[e[1]][e[0]] == ref.TAIL}
    other = len(m.edges()) - len(D) - len(U)
    return D, U, other


def one_cpdag(ctx, n, E, names, order, brute=False):
    g, nodes = lib.dag_of(names, E, Dag, order)
    before = snap(g)
    c = dag2cpdag(g)
    ctx.check(snap(g) == before, "cpdag/input-mutated")
    D, U, other = as_du(c, names)
    rD, rU = ref.cpdag(n, E)
    if brute:
        b = ref.cpdag_brute(n, E)
        assert b == (rD, rU), "reference disagreement"
    ctx.event("cpdag", 1)
    ctx.event("compelled", len(rD))
    ctx.event("reversible", len(rU))
    ctx.check(other == 0 and D == rD and U == rU, "cpdag/wrong",
              f"E={lib.E_(E)} order={order and lib.E_(order)} got {lib.show(D, U)} want {lib.show(rD, rU)}")
    ctx.check([x.get_name() for x in c.get_nodes()] == list(names), "cpdag/nodes")
    if E:
        ctx.state("c", n, sorted(E))
    return c, rD, rU


_SMALL = {}


def small(ctx):
    """every DAG on <=4 nodes, in slices"""
    k = 25 if ctx.tier == "quick" else 40
    if not _SMALL:
        _SMALL["l"] = [(n, E) for n in range(1, 5) for E in ref.all_dags(n)]
    L = _SMALL["l"]
    for n, E in L[ctx.index % k::k]:
        order = [sorted(E)[int(i)] for i in ctx.rng.permutation(len(E))]
        names = gen.names(ctx.rng, n)
        c, rD, rU = one_cpdag(ctx, n, E, names, order, brute=True)
        ext(ctx, n, names, rD, rU, "cpdag")


def rand(ctx):
    r = ctx.rng
    n = int(r.integers(2, 10))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    order = [sorted(E)[int(i)] for i in r.permutation(len(E))]
    ctx.note({"n": n, "E": lib.E_(E)})
    c, rD, rU = one_cpdag(ctx, n, E, names, order)
    # reversing covered edges stays in the class
    F = set(E)
    for _ in range(6):
        pa = ref.parents_of(n, F)
        cov = [(i, j) for i, j in sorted(F) if pa[j] - {i} == pa[i]]
        if not cov:
            break
        i, j = cov[int(r.integers(len(cov)))]
        F = (F - {(i, j)}) | {(j, i)}
        one_cpdag(ctx, n, F, names, None)
        ctx.event("covered_reversal")
    ext(ctx, n, names, rD, rU, "cpdag")


def build_pdag(names, D, U, r):
    nodes = lib.make_nodes(names)
    g = lib.GeneralGraph(nodes)
    es = [(i, j, 1) for i, j in sorted(D)] + [(min(s), max(s), 0) for s in sorted(U, key=sorted)]
    es = [es[int(k)] for k in r.permutation(len(es))]
    for i, j, d in es:
        if d:
            g.add_edge(Edge(nodes[i], nodes[j], Endpoint.TAIL, Endpoint.ARROW))
        else:
            if r.random() < .5:
                i, j = j, i
            g.add_edge(Edge(nodes[i], nodes[j], Endpoint.TAIL, Endpoint.TAIL))
    return g


def ext(ctx, n, names, D, U, kind):
    g = build_pdag(names, D, U, ctx.rng)
    before = snap(g)
    d = pdag2dag(g)
    ctx.check(snap(g) == before, "extend/input-mutated", f"{lib.show(D, U)}")
    F, Fu, other = as_du(d, names)
    ctx.event("extend")
    ctx.event("extend_" + kind)
    why = None
    if other or Fu:
        why = "not fully directed"
    elif not ref.is_acyclic(n, F):
        why = "cyclic"
    elif ref.skeleton(F) != ref.skeleton(D) | set(U):
        why = "skeleton changed"
    elif not set(D) <= F:
        why = "directed edge reversed"
    else:
        sk = ref.skeleton(F)

        def vs(X):
            pa = ref.parents_of(n, X)
            return {(a, v, b) for v in range(n) for a, b in itertools.combinations(sorted(pa[v]), 2) if frozenset((a, b)) not in sk}
        if vs(F) != vs(D):
            why = "different v-structures"
    ctx.check(why is None, "extend/" + str(why), f"{kind}: {lib.show(D, U)} -> {lib.E_(F)}")


def pdags(ctx):
    """extendable PDAGs: a CPDAG with some edges oriented as in one of its DAGs, or some compelled non-v edges forgotten"""
    r = ctx.rng
    n = int(r.integers(3, 9))
    E = gen.rand_dag(r, n)
    D, U = ref.cpdag(n, E)
    D, U = set(D), set(U)
    for e in sorted(E):
        s = frozenset(e)
        if s in U and r.random() < .3:
            U.discard(s)
            D.add(e)
    if r.random() < .5:
        vs = ref.vstructs(n, E)
        keep = {(a, v) for a, v, b in vs} | {(b, v) for a, v, b in vs}
        for e in sorted(D):
            if e not in keep and r.random() < .5:
                D.discard(e)
                U.add(frozenset(e))
    ctx.note({"n": n, "D": lib.E_(D), "U": [sorted(s) for s in U]})
    if U:
        ctx.state("p", n, sorted(D), sorted(map(sorted, U)))
    ext(ctx, n, gen.names(r, n), D, U, "pdag")


def noext(ctx):
    """PDAGs with no consistent extension: the conversion must come to an end and must not hand back a wrong DAG"""
    r = ctx.rng
    n = int(r.integers(3, 6))
    while True:
        D, U = set(), set()
        for i, j in itertools.combinations(range(n), 2):
            u = r.random()
            if u < .25:
                D.add((i, j) if r.random() < .5 else (j, i))
            elif u < .75:
                U.add(frozenset((i, j)))
        if len(U) <= 8 and not ref.consistent_extension_exists(n, D, U):
            break
    names = gen.names(r, n)
    g = build_pdag(names, D, U, r)
    ctx.note({"D": lib.E_(D), "U": [sorted(s) for s in U]})
    ctx.state("n", n, sorted(D), sorted(map(sorted, U)))
    ctx.event("no_extension")
    try:
        pdag2dag(g)
    except ValueError:
        ctx.event("refused")
        return
    ctx.fail("noext/returned", f"{lib.show(D, U)} has no consistent DAG extension but one was returned")


def mec(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    u = r.random()
    F = set(E)
    if u < .55:
        for _ in range(int(r.integers(1, 6))):
            pa = ref.parents_of(n, F)
            cov = [(i, j) for i, j in sorted(F) if pa[j] - {i} == pa[i]]
            if cov:
                i, j = cov[int(r.integers(len(cov)))]
                F = (F - {(i, j)}) | {(j, i)}
    if .4 < u < .9 and F:
        e = sorted(F)[int(r.integers(len(F)))]
        G = (F - {e}) | {e[::-1]} if r.random() < .6 else F - {e}
        if ref.is_acyclic(n, G):
            F = G
    elif u >= .9:
        F = gen.rand_dag(r, n)
    perm = [int(v) for v in r.permutation(n)] if r.random() < .5 else list(range(n))
    g1, _ = lib.dag_of(names, E, Dag)
    nodes2 = lib.make_nodes([names[p] for p in perm])
    g2 = Dag(nodes2)
    pos = {p: k for k, p in enumerate(perm)}
    for i, j in sorted(F):
        g2.add_directed_edge(nodes2[pos[i]], nodes2[pos[j]])
    want = ref.skeleton(E) == ref.skeleton(F) and ref.vstructs(n, E) == ref.vstructs(n, F)
    b1, b2 = snap(g1), snap(g2)
    got = mec_check(g1, g2)
    ctx.event("equivalent" if want else "different")
    ctx.event("reordered" if perm != sorted(perm) else "same_order")
    ctx.check(bool(got) == want, "mec/" + ("reordered" if perm != sorted(perm) else "same-order"),
              f"{lib.E_(E)} vs {lib.E_(F)} (second graph lists nodes as {perm}): {got}, should be {want}")
    ctx.check((b1, b2) == (snap(g1), snap(g2)), "mec/input-mutated")
    ctx.check(bool(mec_check(g2, g1)) == want, "mec/asymmetric")
    if E:
        ctx.state("m", sorted(E), sorted(F), perm)


STREAMS = {
    "small": Stream(small, 25, 40, need=["cpdag", "compelled", "reversible"]),
    "rand": Stream(rand, 500, 12000, need=["cpdag", "compelled", "reversible", "covered_reversal"]),
    "pdags": Stream(pdags, 600, 15000, need=["extend_pdag"]),
    "noext": Stream(noext, 60, 1500, need=["no_extension"], timeout=4, steps=2_000_000),
    "mec": Stream(mec, 500, 12000, need=["equivalent", "different", "reordered", "same_order"]),
}
