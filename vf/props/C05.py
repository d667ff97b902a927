"""Fast adjacency search and FCI under arbitrary (possibly inconsistent) answers: every decision is justified by the trace."""
import itertools

import numpy as np

from causallearn.graph.GraphNode import GraphNode
from causallearn.search.ConstraintBased.FCI import fci
from causallearn.utils.cit import CIT
from causallearn.utils.FAS import fas

from .. import gen, lib, oracles, ref
from ..core import Stream
from .C02 import adj_of, ref_skeleton, spec_for

ID = "C05"
RULE = ("a case = one random independence oracle (a DAG's answers with 0-50% flipped, deterministic per question) and one configuration of the "
        "adjacency search or of FCI; non-trivial when at least one answer was flipped; distinct by resulting graph and configuration")
ASSUMPTIONS = ["p-values of different questions are distinct (hash-derived)"]


def nodes_of(names):
    return [GraphNode(x) for x in names]


def limited_reference(n, spec, alpha, depth):
    adj = [set(range(n)) - {i} for i in range(n)]
    seps = {}
    d = 0
    while max(len(a) for a in adj) - 1 >= d and (depth == -1 or d <= depth):
        snap = [set(a) for a in adj]
        for x in range(n):
            for y in sorted(snap[x]):
                for S in itertools.combinations(sorted(snap[x] - {y}), d):
                    if spec.p(x, y, frozenset(S)) > alpha:
                        adj[x].discard(y)
                        adj[y].discard(x)
                        seps.setdefault(frozenset((x, y)), []).append(S)
        d += 1
    return adj, seps


def fas_case(ctx):
    n, E, alpha, spec = spec_for(ctx, lo=3, hi=9)
    depth = int(ctx.rng.choice([-1, -1, -1, 0, 1, 2, 3]))
    stable = bool(ctx.rng.random() < .65)
    names = gen.names(ctx.rng, n)
    data = lib.oracle_data(n, n + 2)
    cit = CIT(data, "vf_oracle", spec=spec)
    ctx.note({"n": n, "E": lib.E_(E), "flip": spec.flip, "alpha": alpha, "depth": depth, "stable": stable})
    g, sep, tests = fas(data, nodes_of(names), cit, alpha, None, depth, False, stable, False)
    log = list(spec.log)
    adj = adj_of(g.graph)
    ctx.check([x.get_name() for x in g.get_nodes()] == names, "fas/node-names", f"{g.get_nodes()}")
    ctx.check(np.all((g.graph == 0) | (g.graph == -1)), "fas/not-undirected")
    asked = {}
    for x, y, Z, p in log:
        asked.setdefault(frozenset((x, y)), {})[frozenset(Z)] = p
    ctx.event("ci_queries", len(log))
    if depth >= 0:
        ctx.event("depth_limited")
        ctx.check(all(len(Z) <= depth for _, _, Z, _ in log), "fas/depth", f"depth={depth}, largest set asked {max(len(q[2]) for q in log)}")
    for x, y in itertools.combinations(range(n), 2):
        q = asked.get(frozenset((x, y)), {})
        acc = [Z for Z, p in q.items() if p > alpha]
        if y not in adj[x]:
            ctx.event("removals_justified")
            if ctx.check(acc, "fas/unjustified-removal", f"{x}-{y}") and \
                    ctx.check((x, y) in sep and (y, x) in sep, "fas/sepset-missing", f"{x},{y}"):
                ctx.check(set(sep[(x, y)]) == set(sep[(y, x)]), "fas/sepset-asymmetric")
                un = set(sep[(x, y)])
                ctx.check(un <= set().union(*acc) and any(set(Z) <= un for Z in acc), "fas/sepset-unjustified", f"({x},{y}): {un}, accepted {acc}")
        else:
            ctx.event("retentions_justified")
            ctx.check((x, y) not in sep and (y, x) not in sep, "fas/sepset-of-adjacent", f"{x},{y}")
            for a, b in ((x, y), (y, x)):
                rest = sorted(adj[a] - {b})
                for k in range(len(rest) + 1):
                    if depth >= 0 and k > depth:
                        break
                    for S in itertools.combinations(rest, k):
                        p = q.get(frozenset(S))
                        if ctx.check(p is not None, "fas/untested-retention", f"{a}-{b} given {S}"):
                            ctx.check(p <= alpha, "fas/ignored-independence", f"{a}-{b} given {S}: p={p}")
    for (x, y, S), p in tests.items():
        ctx.check(asked.get(frozenset((x, y)), {}).get(frozenset(S)) == p, "fas/test-results", f"{x},{y},{S}: {p}")
    ctx.check({(frozenset((x, y)), frozenset(S)) for x, y, S in tests} == {(k, Z) for k, d in asked.items() for Z in d}, "fas/test-results-incomplete")
    if stable:
        ctx.event("stable")
        radj, rs = limited_reference(n, spec, alpha, depth)
        ctx.check(adj == radj, "fas/stable-differs", f"should be {radj}, got {adj}")
        for x, y in itertools.combinations(range(n), 2):
            if y not in radj[x] and y not in adj[x] and (x, y) in sep:
                ctx.check(set(sep[(x, y)]) == set().union(*map(set, rs[frozenset((x, y))])), "fas/stable-sepset",
                          f"sepset({x},{y})={sep[(x, y)]}, removing sets {rs[frozenset((x, y))]}")
    if spec.flip:
        ctx.state(alpha, stable, depth, [sorted(a) for a in adj])


def fas_order(ctx):
    n, E, alpha, spec = spec_for(ctx, lo=4, hi=8)
    perm = [int(v) for v in ctx.rng.permutation(n)]

    class P:
        log = []

        def p(self, x, y, Z):
            return spec.p(perm[x], perm[y], frozenset(perm[z] for z in Z))
    out = []
    for s in (spec, P()):
        data = lib.oracle_data(n, n + 2)
        g, sep, _ = fas(data, nodes_of([f"v{i}" for i in range(n)]), CIT(data, "vf_oracle", spec=s), alpha, show_progress=False)
        out.append((g.graph, sep))
    (A, sa), (B, sb) = out
    C = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            C[perm[i], perm[j]] = B[i, j]
    ctx.event("reordered")
    ctx.check(np.array_equal(A != 0, C != 0), "fas/order-dependent", f"perm={perm}")
    ctx.check({(perm[x], perm[y]): {perm[z] for z in S} for (x, y), S in sb.items()} == {k: set(S) for k, S in sa.items()}, "fas/order-dependent-sepsets")
    ctx.state(alpha, A.tobytes())


def fci_case(ctx):
    n, E, alpha, spec = spec_for(ctx, lo=3, hi=8)
    nl = int(ctx.rng.integers(0, 3)) if n > 4 else 0
    if nl:
        spec = oracles.NoisySpec(n, E, obs=list(range(nl, n)), alpha=alpha, flip=spec.flip, salt=spec.salt)
    k = n - nl
    depth = int(ctx.rng.choice([-1, -1, -1, 1, 2]))
    names = gen.names(ctx.rng, k)
    ctx.note({"n": n, "E": lib.E_(E), "latent": list(range(nl)), "flip": spec.flip, "alpha": alpha, "depth": depth})
    data = lib.oracle_data(k, k + 2)
    g, edges = fci(data, "vf_oracle", alpha, depth=depth, show_progress=False, node_names=names, spec=spec)
    log = list(spec.log)
    m = lib.marks(g, names)
    ctx.event("ci_queries", len(log))
    fadj, fsep = limited_reference(k, spec, alpha, depth)
    # separating sets: the adjacency stage's, then the first accepted question about a pair still adjacent after it
    sep = {p: set().union(*map(set, S)) for p, S in fsep.items()}
    for x, y, Z, p in log:
        pr = frozenset((x, y))
        if pr not in sep and p > alpha:
            sep[pr] = set(Z)
            ctx.event("possible_dsep_removals")
    for x, y in itertools.combinations(range(k), 2):
        pr = frozenset((x, y))
        if m.adj(x, y):
            ctx.event("kept")
            ctx.check(pr not in sep, "fci/ignored-independence", f"{x}-{y} kept although a question about it was answered independent")
        else:
            ctx.event("removed")
            ctx.check(pr in sep, "fci/unjustified-removal", f"{x}-{y}")
    if len(sep) + len(m.edges()) != k * (k - 1) // 2:
        return
    # unshielded triples: middle outside the separating set => collider, and those arrowheads survive to the output
    for b in range(k):
        for a, c in itertools.combinations(m.nbrs(b), 2):
            if not m.adj(a, c):
                if b not in sep[frozenset((a, c))]:
                    ctx.event("collider")
                    ctx.check(m.m[a][b] == ref.ARR and m.m[c][b] == ref.ARR, "fci/collider-missed",
                              f"{a} *-> {b} <-* {c}: sepset {sep[frozenset((a, c))]} lacks {b}, graph {m.show()}")
                else:
                    ctx.event("noncollider")
    # orientation is complete for the first rule: a *-> b o-* c unshielded never remains
    for b in range(k):
        for a, c in itertools.permutations(m.nbrs(b), 2):
            if not m.adj(a, c):
                ctx.check(not (m.m[a][b] == ref.ARR and m.m[c][b] == ref.CIRC), "fci/away-from-collider-left",
                          f"{a} *-> {b} o-* {c} left in {m.show()}")
    ctx.check(len(edges) == len(m.edges()), "fci/edge-list")
    if spec.flip:
        ctx.state(alpha, depth, m.key())


STREAMS = {
    "fas": Stream(fas_case, 600, 15000, need=["removals_justified", "retentions_justified", "depth_limited", "stable"]),
    "fas_order": Stream(fas_order, 250, 6000, need=["reordered"]),
    "fci": Stream(fci_case, 500, 12000, need=["kept", "removed", "collider", "noncollider", "possible_dsep_removals"], timeout=15),
}
