"""Background knowledge: its queries, and searches that obey it and stay correct under truthful knowledge."""
import copy
import itertools
import re

import numpy as np

from causallearn.graph.Edge import Edge
from causallearn.graph.Endpoint import Endpoint
from causallearn.graph.GraphClass import CausalGraph
from causallearn.graph.GraphNode import GraphNode
from causallearn.search.ConstraintBased.FCI import fci
from causallearn.search.ConstraintBased.PC import pc
from causallearn.utils.cit import CIT
from causallearn.utils.FAS import fas
from causallearn.utils.PCUtils.BackgroundKnowledge import BackgroundKnowledge
from causallearn.utils.PCUtils.BackgroundKnowledgeOrientUtils import orient_by_background_knowledge

from .. import gen, lib, oracles, ref
from ..core import Stream
from .C02 import composed
from .C01 import CONFIGS
from .C04 import r9_walk, true_pag, world
from .C05 import nodes_of

ID = "C03"
ALPHAS = (.05, .01, .2)
RULE = ("a case = one history of edits and queries of a knowledge object, one graph oriented by knowledge, or one search with knowledge; "
        "distinct by knowledge content and resulting graph")
ASSUMPTIONS = ["patterns are generated so that matching at the start and matching the whole name coincide",
               "knowledge given to the truth streams is true of the data-generating graph; arbitrary knowledge is free of contradictions",
               "FCI may stop short of consequences of knowledge; only soundness is judged beyond the marks it finds without knowledge"]


class Model:
    def __init__(self):
        self.f, self.r, self.fp, self.rp, self.t = set(), set(), set(), set(), {}

    def forbidden(self, a, b):
        return ((a, b) in self.f or any(re.fullmatch(p, a) and re.fullmatch(q, b) for p, q in self.fp)
                or a in self.t and b in self.t and self.t[a] > self.t[b])

    def required(self, a, b):
        return (a, b) in self.r or any(re.fullmatch(p, a) and re.fullmatch(q, b) for p, q in self.rp)

    def key(self):
        return tuple(map(lambda s: tuple(sorted(s)), (self.f, self.r, self.fp, self.rp))) + (tuple(sorted(self.t.items())),)


def patterns(r, names):
    """regular expressions for which a match at the start of a name is a match of the whole name, for all names in play"""
    out = []
    for _ in range(30):
        k = int(r.integers(4))
        nm = names[int(r.integers(len(names)))]
        if k == 0:
            p = re.escape(nm)
        elif k == 1:
            p = "|".join(re.escape(names[int(i)]) for i in r.permutation(len(names))[: int(r.integers(1, 4))])
        elif k == 2:
            p = ".*"
        else:
            p = re.escape(nm[: int(r.integers(0, len(nm) + 1))]) + str(r.choice([".*", r"\w*", r"\d+", ".", ".+"]))
        p = "(?:" + p + ")$" if r.random() < .3 else p
        if all((re.match(p, x) is None) == (re.fullmatch(p, x) is None) for x in names):
            out.append(p)
    return out or [".*"]


def queries(ctx):
    r = ctx.rng
    names = gen.names(r, int(r.integers(2, 6)))
    nodes = [GraphNode(x) for x in names]
    pats = patterns(r, names)
    bk, m = BackgroundKnowledge(), Model()
    last = []
    hist = []
    for _ in range(int(r.integers(5, 40))):
        i, j = (int(v) for v in r.integers(len(names), size=2))
        if last and r.random() < .4:
            i, j = last[int(r.integers(len(last)))]
        a, b = names[i], names[j]
        # the caller may hold other node objects for the same variable
        x, y = (nodes[i], nodes[j]) if r.random() < .5 else (GraphNode(a), GraphNode(b))
        p, q = (str(r.choice(pats)) for _ in "ab")
        if m.fp | m.rp and r.random() < .5:
            p, q = sorted(m.fp | m.rp)[int(r.integers(len(m.fp | m.rp)))]
        op = str(r.choice(["f+", "f+", "f-", "r+", "r-", "fp+", "fp-", "rp+", "rp-", "t+", "t+", "t-"]))
        hist.append((op, a, b) if len(op) == 2 and op[0] != "t" else (op, p, q) if op[1] == "p" else (op, a))
        if op == "f+":
            res = bk.add_forbidden_by_node(x, y)
            m.f.add((a, b))
            last.append((i, j))
        elif op == "f-":
            res = bk.remove_forbidden_by_node(x, y)
            m.f.discard((a, b))
        elif op == "r+":
            res = bk.add_required_by_node(x, y)
            m.r.add((a, b))
            last.append((i, j))
        elif op == "r-":
            res = bk.remove_required_by_node(x, y)
            m.r.discard((a, b))
        elif op == "fp+":
            res = bk.add_forbidden_by_pattern(p, q)
            m.fp.add((p, q))
        elif op == "fp-":
            res = bk.remove_forbidden_by_pattern(p, q)
            m.fp.discard((p, q))
        elif op == "rp+":
            res = bk.add_required_by_pattern(p, q)
            m.rp.add((p, q))
        elif op == "rp-":
            res = bk.remove_required_by_pattern(p, q)
            m.rp.discard((p, q))
        elif op == "t+":
            if a in m.t and r.random() < .5:     # otherwise the later statement counts
                bk.remove_node_from_tier(x, m.t.pop(a))
            t = int(r.integers(0, 4))
            res = bk.add_node_to_tier(x, t)
            m.t[a] = t
        else:
            if a not in m.t:
                continue
            res = bk.remove_node_from_tier(x, m.t.pop(a))
        ctx.check(res is bk, "knowledge/chaining")
        for u, v in itertools.permutations(range(len(names)), 2):
            U, V = (nodes[u], nodes[v]) if r.random() < .5 else (GraphNode(names[u]), GraphNode(names[v]))
            for what, got, want in (("forbidden", bk.is_forbidden(U, V), m.forbidden(names[u], names[v])),
                                    ("required", bk.is_required(U, V), m.required(names[u], names[v]))):
                ctx.event(what + ("_yes" if want else "_no"))
                ctx.check(bool(got) == bool(want), "knowledge/" + what, lambda: f"{names[u]} -> {names[v]} {what}: {got}, should be {want}, after {hist}")
        for v in range(len(names)):
            ctx.check(bk.is_in_which_tier(nodes[v]) == m.t.get(names[v], -1), "knowledge/tier", lambda: f"{hist}")
        ctx.state(m.key())


def make(r, names, forb, req, tiers=None):
    """a knowledge object stating each fact in a random way; returns it with the model"""
    bk, m = BackgroundKnowledge(), Model()
    esc = [re.escape(x) + "$" for x in names]
    for a, b in forb:
        if r.random() < .5:
            bk.add_forbidden_by_node(GraphNode(names[a]), GraphNode(names[b]))
        else:
            bk.add_forbidden_by_pattern(esc[a], esc[b])
    for a, b in req:
        if r.random() < .5:
            bk.add_required_by_node(GraphNode(names[a]), GraphNode(names[b]))
        else:
            bk.add_required_by_pattern(esc[a], esc[b])
    F, R = set(forb), set(req)
    if tiers:
        for v, t in tiers.items():
            bk.add_node_to_tier(GraphNode(names[v]), t)
        F |= {(a, b) for a in tiers for b in tiers if tiers[a] > tiers[b]}
    if r.random() < .2:                          # statements taken back
        a, b = (int(v) for v in r.choice(len(names), 2, replace=False))
        if (a, b) not in F | R:
            bk.add_forbidden_by_node(GraphNode(names[a]), GraphNode(names[b]))
            bk.remove_forbidden_by_node(GraphNode(names[a]), GraphNode(names[b]))
            bk.add_required_by_pattern(esc[a], esc[b])
            bk.remove_required_by_pattern(esc[a], esc[b])
    return bk, F, R


def cut(r, order, possible=1.0):
    """tiers that respect the order; some variables stay without"""
    k, t, out = int(r.integers(1, 4)), 0, {}
    for v in order:
        if r.random() < k / max(1, len(order)):
            t += int(r.integers(1, 3))
        if r.random() < possible:
            out[v] = t
    return out


def knowledge_of(r, n, can, names, order, keep=lambda i, j: False):
    """can(i, j): i -> j is an edge of the world; order: an order its edges respect; keep(i, j): never say that i -> j is forbidden"""
    dens = r.choice([.1, .3, .6])
    forb = [(i, j) for i, j in itertools.permutations(range(n), 2) if not can(i, j) and not keep(i, j) and r.random() < dens * .6]
    req = [(i, j) for i, j in itertools.permutations(range(n), 2) if can(i, j) and r.random() < dens]
    if r.random() < .5:                          # pairs banned in both directions
        for i, j in itertools.combinations(range(n), 2):
            if not can(i, j) and not can(j, i) and not keep(i, j) and not keep(j, i) and r.random() < .5:
                forb += [(i, j), (j, i)]
    kind = int(r.integers(4))
    if kind == 0:
        req = []
    if kind == 1:
        forb = []
    tiers = cut(r, order, float(r.choice([.6, 1]))) if r.random() < .4 else None
    if tiers and any(tiers[a] > tiers[b] and keep(a, b) for a in tiers for b in tiers):
        forb = [(a, b) for a, b in forb if (b, a) not in forb and not (b in tiers and a in tiers and tiers[b] > tiers[a])] if any(
            keep(a, b) for a, b in itertools.permutations(range(n), 2)) else forb
    return make(r, names, sorted(set(forb)), req, tiers)


def snap(bk):
    return (sorted((a.get_name(), b.get_name()) for a, b in bk.forbidden_rules_specs), sorted((a.get_name(), b.get_name()) for a, b in bk.required_rules_specs),
            sorted(bk.forbidden_pattern_rules_specs), sorted(bk.required_pattern_rules_specs), sorted((a.get_name(), t) for a, t in bk.tier_value_map.items()))


def orient(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    names = gen.names(r, n)
    order = [int(v) for v in r.permutation(n)]
    at = {v: i for i, v in enumerate(order)}
    bk, F, R = knowledge_of(r, n, lambda i, j: at[i] < at[j] and (i * 7 + j * 3 + ctx.index) % 3 > 0, names, order)
    cg = CausalGraph(n, names)
    g0 = ref.Mixed(n)
    EP = {ref.ARR: Endpoint.ARROW, ref.TAIL: Endpoint.TAIL}
    for i, j in itertools.combinations(range(n), 2):
        cg.G.remove_edge(cg.G.get_edge(cg.G.nodes[i], cg.G.nodes[j]))
        if r.random() < .7:
            a, b = (ref.TAIL, ref.TAIL) if r.random() < .6 else [(ref.TAIL, ref.ARR), (ref.ARR, ref.TAIL), (ref.ARR, ref.ARR)][int(r.integers(3))]
            u, v = (i, j) if r.random() < .5 else (j, i)
            g0.set(u, v, a, b)
            cg.G.add_edge(Edge(cg.G.nodes[u], cg.G.nodes[v], EP[a], EP[b]))
    s0 = snap(bk)
    orient_by_background_knowledge(cg, bk)
    got = lib.marks(cg.G, names)
    want = ref.Mixed(n)
    for i, j in g0.edges():
        a, b = g0.m[j][i], g0.m[i][j]
        if a == b == ref.TAIL:
            to_j = (i, j) in R or (j, i) in F
            to_i = (j, i) in R or (i, j) in F
            if to_j and to_i:                    # banned altogether: no orientation is right, not judged
                want.set(i, j, got.m[j][i], got.m[i][j])
                continue
            ctx.event("oriented" if to_i or to_j else "left_undirected")
            a, b = (ref.TAIL, ref.ARR) if to_j else (ref.ARR, ref.TAIL) if to_i else (a, b)
        want.set(i, j, a, b)
    ctx.check(got.key() == want.key(), "orient", lambda: f"{g0.show()} with forbidden {sorted(F)} required {sorted(R)}: got {got.show()}, should be {want.show()}")
    ctx.check(snap(bk) == s0, "knowledge-mutated")
    ctx.state(got.key(), sorted(F), sorted(R))


def config(r, E):
    cfg = CONFIGS[int(r.integers(len(CONFIGS)))]
    if cfg[0] and len(E) > 12:
        cfg = (0, cfg[1])
    return cfg


def respected(ctx, who, D, U, X, F, R, exact=True):
    """directed D, undirected U, other X = (i, j, mark at i, mark at j)"""
    for i, j in D:
        ctx.check((i, j) not in F, who + "/forbidden-edge", lambda: f"{i} -> {j} is in the result, forbidden {sorted(F)}")
        ctx.check((j, i) not in R, who + "/against-required", lambda: f"{i} -> {j} is in the result, required {sorted(R)}")
    for p in [tuple(u) for u in U] + [x[:2] for x in X]:
        for i, j in (p, p[::-1]):
            ctx.check((i, j) not in R, who + "/required-not-oriented", lambda: f"{i} and {j} are adjacent, {i} -> {j} is required but not in the result")
            if exact:
                ctx.check((i, j) not in F, who + "/forbidden-not-oriented", lambda: f"{i} and {j} are adjacent, {i} -> {j} is forbidden but {j} -> {i} is not in the result")
    for p in [tuple(e) for e in D] + [tuple(u) for u in U] + [x[:2] for x in X]:
        ctx.check(not (p in F and p[::-1] in F), who + "/banned-adjacent", lambda: f"{p} are adjacent in the result, banned")
        ctx.event("knowledge_on_edge", int(p in F or p[::-1] in F or p in R or p[::-1] in R))


def pc_truth(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    bk, F, R = knowledge_of(r, n, lambda i, j: (i, j) in E, names, ref.topo(n, E))
    cfg, stable = config(r, E), bool(r.random() < .6)
    spec = oracles.DsepSpec(n, E, alpha=ALPHAS[ctx.index % 3], salt=ctx.index)
    s0 = snap(bk)
    ok, cg = ctx.call("pc", pc, lib.oracle_data(n, n + 2), ALPHAS[ctx.index % 3], "vf_oracle", stable, cfg[0], cfg[1], show_progress=False, node_names=names, background_knowledge=bk, spec=spec)
    if not ok:
        return
    d, u, x = lib.dir_und(cg.G.graph)
    C, _ = ref.cpdag(n, E)
    B = {(i, j) for i, j in E if (i, j) in R or (j, i) in F}
    V = {e for a, v, b in ref.vstructs(n, E) for e in ((a, v), (b, v))}
    sk = ref.skeleton(E)
    und = {s for s in sk if not any(t in V | B for t in (tuple(s), tuple(s)[::-1]))}
    lo, _ = ref.meek(n, V | B, und, rule4=False)
    hi, _ = ref.meek(n, V | B, und, rule4=True)
    ctx.event("informative" if lo > C else "uninformative")
    who = f"pc/uc{cfg[0]}"
    txt = lambda: f"DAG {lib.E_(E)} forbidden {sorted(F)} required {sorted(R)} {cfg} stable={stable}: got {lib.show(d, u)} {x}"
    ctx.check(ref.skeleton(d) | u == sk and not x, who + "/skeleton", txt)
    ctx.check(d <= E, who + "/false-orientation", lambda: txt() + f", {sorted(d - E)} against the truth")
    ctx.check(d <= hi, who + "/unjustified-orientation", lambda: txt() + f", {sorted(d - hi)} does not follow")
    ctx.check(lo <= d, who + "/missed-orientation", lambda: txt() + f", misses {sorted(lo - d)}")
    respected(ctx, who, d, u, x, F, R)
    ctx.check(snap(bk) == s0, "knowledge-mutated")
    ctx.event("pc_truth")
    ctx.event("banned_pairs", sum((j, i) in F for i, j in F) // 2)
    if E:
        ctx.state(n, sorted(E), sorted(F), sorted(R), cfg, stable)
    ctx.note({"n": n, "E": lib.E_(E), "forbidden": sorted(F), "required": sorted(R), "cfg": cfg, "stable": stable})


def justified(ctx, who, log, adj, n, alpha, F, depth=-1):
    """a removed pair has an accepting answer or is banned; a kept pair was rejected for every set of final neighbours"""
    asked = {}
    for x, y, Z, p in log:
        asked.setdefault(frozenset((x, y)), {})[frozenset(Z)] = p
    for i, j in itertools.combinations(range(n), 2):
        a = asked.get(frozenset((i, j)), {})
        if j not in adj[i]:
            ctx.check(any(p > alpha for p in a.values()) or (i, j) in F and (j, i) in F, who + "/unjustified-removal", lambda: f"{i},{j} removed after {a}")
            continue
        ctx.event("kept_edges")
        for base in (adj[i] - {j}, adj[j] - {i}):
            for k in range(len(base) + 1):
                if depth >= 0 and k > depth:
                    break
                for Z in itertools.combinations(sorted(base), k):
                    ctx.check(frozenset(Z) in a and a[frozenset(Z)] <= alpha, who + "/untested-adjacency",
                              lambda: f"{i},{j} kept, answer given {Z}: {a.get(frozenset(Z))}")


def other_world(r, n):
    F0 = gen.rand_dag(r, n)
    return F0, (lambda i, j: (i, j) in F0), ref.topo(n, F0)


def pc_noisy(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    W, can, order = other_world(r, n)
    bk, F, R = knowledge_of(r, n, can, names, order)
    cfg, stable = config(r, E), bool(r.random() < .6)
    a = float(r.choice([.01, .05, .2]))
    spec = oracles.NoisySpec(n, E, alpha=a, salt=ctx.index, flip=float(r.choice([0, .1, .3])))
    ok, cg = ctx.call("pc", pc, lib.oracle_data(n, n + 2), a, "vf_oracle", stable, cfg[0], cfg[1], show_progress=False, node_names=names, background_knowledge=bk, spec=spec)
    if not ok:
        return
    d, u, x = lib.dir_und(cg.G.graph)
    ctx.event("pc_noisy")
    respected(ctx, f"pc/uc{cfg[0]}", d, u, x, F, R)
    adj = [set() for _ in range(n)]
    for i, j in [tuple(e) for e in d] + [tuple(e) for e in u] + [e[:2] for e in x]:
        adj[i].add(j)
        adj[j].add(i)
    if cfg[0] == 0:
        justified(ctx, "pc", spec.log, adj, n, a, F)
    composed(ctx, "pc", cg, a, cfg, bk)
    ctx.state(n, sorted(d), sorted(map(sorted, u)), sorted(F), sorted(R), cfg, stable)


def fas_noisy(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    E = gen.rand_dag(r, n)
    names = gen.names(r, n)
    W, can, order = other_world(r, n)
    bk, F, R = knowledge_of(r, n, can, names, order)
    depth, stable = int(r.choice([-1, -1, 0, 1, 2])), bool(r.random() < .6)
    spec = oracles.NoisySpec(n, E, alpha=ALPHAS[ctx.index % 3], salt=ctx.index, flip=float(r.choice([0, .1, .3])))
    ok, res = ctx.call("fas", fas, lib.oracle_data(n, n + 2), nodes_of(names), CIT(lib.oracle_data(n, n + 2), "vf_oracle", spec=spec), spec.alpha, bk, depth, False, stable, False)
    if not ok:
        return
    g, sep, _ = res
    adj = [{j for j in range(n) if g.graph[i, j]} for i in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        ctx.check(not (j in adj[i] and (i, j) in F and (j, i) in F), "fas/banned-adjacent", lambda: f"{(i, j)}")
        if j not in adj[i]:
            ctx.check((i, j) in sep and (j, i) in sep, "fas/sepset-missing", lambda: f"no entry for {(i, j)} in {sep}")
    justified(ctx, "fas", spec.log, adj, n, spec.alpha, F, depth)
    ctx.event("fas_runs")
    ctx.state(n, [sorted(a) for a in adj], sorted(F), depth, stable)


def lax_tail(g, m):
    """a wrong tail that the recorded defect of rule R9 (any semi-directed walk) can have produced"""
    for a, c in itertools.permutations(range(g.n), 2):
        if g.m[c][a] == ref.TAIL and g.m[a][c] == ref.ARR and m.m[c][a] != ref.TAIL:
            for b in g.nbrs(a):
                if b == c or g.adj(b, c):
                    continue
                seen, st = {b}, [b]
                while st:
                    v = st.pop()
                    for w in g.nbrs(v):
                        if w not in seen and g.m[w][v] != ref.ARR:
                            seen.add(w)
                            st.append(w)
                if c in seen:
                    return True
    return False


def fci_truth(ctx):
    r = ctx.rng
    n, E, L, S, obs = world(r, nmax=8, omax=6, sel=0)
    k = len(obs)
    mag, pag = true_pag(n, E, L, S, obs)
    names = gen.names(r, k)
    dirE = {(i, j) for i, j in itertools.permutations(range(k), 2) if mag.m[i][j] == ref.ARR and mag.m[j][i] == ref.TAIL}
    flip = {frozenset(e): bool(r.random() < .5) for e in mag.edges()}
    # of a latently confounded pair only one direction may be ruled out, otherwise the adjacency itself is
    bk, F, R = knowledge_of(r, k, lambda i, j: (i, j) in dirE, names, ref.topo(k, dirE), keep=lambda i, j: mag.adj(i, j) and flip[frozenset((i, j))] == (i < j) and not (j, i) in dirE)
    data = lib.oracle_data(k)

    def run(b):
        spec = oracles.DsepSpec(n, E, obs=obs, sel=S, salt=ctx.index, alpha=ALPHAS[ctx.index % 3])
        return fci(data, "vf_oracle", ALPHAS[ctx.index % 3], verbose=False, show_progress=False, node_names=names, background_knowledge=b, spec=spec)[0]

    plain = lib.marks(run(None), names)
    if plain.key() != pag.key():                 # another property's subject
        return ctx.event("plain_fci_not_exact")
    s0 = snap(bk)
    ok, g = ctx.call("fci", run, bk)
    if not ok:
        return
    got = lib.marks(g, names)
    txt = lambda: f"DAG {lib.E_(E)} latent={L} observed={obs} MAG {mag.show()} forbidden {sorted(F)} required {sorted(R)}: got {got.show()}"
    same = all(bool(got.m[i][j]) == bool(mag.m[i][j]) for i in range(k) for j in range(k))
    ctx.event("fci_truth")
    ctx.state(n, sorted(E), L, obs, sorted(F), sorted(R))
    if not ctx.check(same, "fci/skeleton", txt):
        return
    bad = [(i, j) for i, j in itertools.permutations(range(k), 2) if got.m[i][j] not in (0, ref.CIRC, mag.m[i][j])]
    if bad and lax_tail(got, mag):
        return ctx.fail("fci/r9-any-walk", txt())
    ctx.check(not bad, "fci/false-mark", lambda: txt() + f", false marks {bad}")
    miss = [(i, j) for i, j in itertools.permutations(range(k), 2) if pag.m[i][j] not in (0, ref.CIRC) and got.m[i][j] != pag.m[i][j]]
    ctx.check(not miss, "fci/lost-mark", lambda: txt() + f", PAG {pag.show()}, lost {miss}")
    fci_respected(ctx, got, F, R, txt)
    ctx.event("informative" if got.key() != pag.key() else "uninformative")
    ctx.check(snap(bk) == s0, "knowledge-mutated")
    ctx.note({"E": lib.E_(E), "latent": L, "observed": obs, "forbidden": sorted(F), "required": sorted(R)})


def fci_respected(ctx, g, F, R, txt):
    for i, j in itertools.permutations(range(g.n), 2):
        if not g.m[i][j]:
            continue
        if (i, j) in R:
            ctx.check(g.m[i][j] == ref.ARR and g.m[j][i] == ref.TAIL, "fci/required-not-oriented", lambda: txt() + f", {i} -> {j} required")
        if (i, j) in F:
            ctx.check(g.m[j][i] == ref.ARR, "fci/forbidden-not-excluded", lambda: txt() + f", {i} -> {j} forbidden but the mark at {i} is no arrowhead")
        ctx.check(not ((i, j) in F and (j, i) in F), "fci/banned-adjacent", txt)
        ctx.event("knowledge_on_edge", int((i, j) in F or (i, j) in R))


def fci_noisy(ctx):
    r = ctx.rng
    k = int(r.integers(2, 7))
    E = gen.rand_dag(r, k)
    names = gen.names(r, k)
    W, can, order = other_world(r, k)
    bk, F, R = knowledge_of(r, k, can, names, order)
    spec = oracles.NoisySpec(k, E, alpha=ALPHAS[ctx.index % 3], salt=ctx.index, flip=float(r.choice([0, .1, .3])))
    ok, res = ctx.call("fci", fci, lib.oracle_data(k), "vf_oracle", spec.alpha, verbose=False, show_progress=False, node_names=names, background_knowledge=bk, spec=spec)
    if not ok:
        return
    got = lib.marks(res[0], names)
    ctx.event("fci_noisy")
    ctx.state(got.key(), sorted(F), sorted(R))
    for i, j in itertools.permutations(range(k), 2):
        if got.m[i][j]:
            d = got.m[i][j] == ref.ARR and got.m[j][i] == ref.TAIL
            ctx.check(not (d and ((i, j) in F or (j, i) in R)), "fci/against-knowledge", lambda: f"{i} -> {j} in {got.show()}, forbidden {sorted(F)} required {sorted(R)}")
            ctx.check(not ((i, j) in F and (j, i) in F), "fci/banned-adjacent")


STREAMS = {
    "queries": Stream(queries, 300, 20000, need=["forbidden_yes", "required_yes", "forbidden_no"]),
    "orient": Stream(orient, 400, 20000, need=["oriented", "left_undirected"]),
    "pc_truth": Stream(pc_truth, 600, 30000, need=["informative", "banned_pairs"], timeout=60),
    "pc_noisy": Stream(pc_noisy, 400, 20000, need=["knowledge_on_edge", "kept_edges", "composed"], timeout=60),
    "fas_noisy": Stream(fas_noisy, 300, 15000, need=["kept_edges"], timeout=60),
    "fci_truth": Stream(fci_truth, 500, 20000, need=["informative"], timeout=60),
    "fci_noisy": Stream(fci_noisy, 300, 10000, need=["fci_noisy"], timeout=60),
}
