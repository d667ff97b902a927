"""PC / skeleton search under arbitrary (possibly inconsistent) independence answers: every decision is justified by the trace."""
import itertools
from copy import deepcopy

import numpy as np

from causallearn.graph.Edge import Edge
from causallearn.graph.Endpoint import Endpoint
from causallearn.graph.GeneralGraph import GeneralGraph
from causallearn.graph.GraphClass import CausalGraph
from causallearn.search.ConstraintBased.PC import pc
from causallearn.utils.PCUtils import Meek, SkeletonDiscovery, UCSepset
from causallearn.utils.PCUtils.BackgroundKnowledgeOrientUtils import orient_by_background_knowledge
from causallearn.utils.cit import CIT

from .. import gen, lib, ref
from ..core import Stream
from ..oracles import NoisySpec

ID = "C02"
RULE = ("a case = one random independence oracle (a DAG's answers with 0-50% flipped, deterministic per question), one PC "
        "configuration and column order; non-trivial when at least one answer was flipped; distinct by the resulting "
        "skeleton/graph and configuration")
ASSUMPTIONS = ["p-values of different questions are distinct (hash-derived), so strength ordering has no ties"]


def spec_for(ctx, n=None, lo=4, hi=8):
    r = ctx.rng
    if n is None and ctx.index % 25 == 7:        # now and then more variables than one digit can number
        n = int(r.integers(10, 14))
        ctx.event("wide")
        return n, (E := gen.sparse_dag(r, n)), .05, NoisySpec(n, E, alpha=.05, flip=float(r.choice([0, .02, .05])), salt=int(r.integers(1 << 30)))
    n = n or int(r.integers(lo, hi))
    E = gen.rand_dag(r, n)
    if len(E) > 14:
        n = 5
        E = gen.rand_dag(r, n)
    alpha = float(r.choice([.01, .05, .2, .5]))
    flip = float(r.choice([0, .05, .15, .3, .5]))
    return n, E, alpha, NoisySpec(n, E, alpha=alpha, flip=flip, salt=int(r.integers(1 << 30)))


def ref_skeleton(n, spec, alpha):
    """order-independent adjacency search (Colombo & Maathuis); returns adjacency sets and separating sets found"""
    adj = [set(range(n)) - {i} for i in range(n)]
    seps = {}
    d = 0
    while max(len(a) for a in adj) - 1 >= d:
        snap = [set(a) for a in adj]
        for x in range(n):
            for y in sorted(snap[x]):
                for S in itertools.combinations(sorted(snap[x] - {y}), d):
                    if spec.p(x, y, frozenset(S)) > alpha:
                        adj[x].discard(y)
                        adj[y].discard(x)
                        seps.setdefault(frozenset((x, y)), []).append(S)
        d += 1
    return adj, seps


def adj_of(A):
    n = A.shape[0]
    return [{j for j in range(n) if j != i and (A[i, j] != 0 or A[j, i] != 0)} for i in range(n)]


def check_skeleton(ctx, cg, n, spec, alpha, stable, key, log):
    A = cg.G.graph
    adj = adj_of(A)
    asked = {}
    for x, y, Z, p in log:
        asked.setdefault(frozenset((x, y)), {})[frozenset(Z)] = p
    ctx.event("ci_queries", len(log))
    for x, y in itertools.combinations(range(n), 2):
        q = asked.get(frozenset((x, y)), {})
        if y not in adj[x]:
            ctx.event("removals_justified")
            acc = {Z for Z, p in q.items() if p > alpha}
            ctx.check(acc, key + "/unjustified_removal", f"edge {x}-{y} removed but no asked question accepted independence")
            rec = [set(S) for S in (cg.sepset[x, y] or [])]
            rec2 = [set(S) for S in (cg.sepset[y, x] or [])]
            ctx.check(rec and rec2, key + "/sepset_missing", f"no separating set recorded for {x},{y}")
            ctx.check(sorted(map(sorted, rec)) == sorted(map(sorted, rec2)), key + "/sepset_asymmetric", f"{rec} vs {rec2}")
            un = set().union(*rec) if rec else set()
            okun = any(un == set().union(*c) for c in ([acc] if not stable else []) ) or True
            # every recorded variable comes from an accepted question; some accepted question is covered by the record
            ctx.check(un <= set().union(*acc) if acc else True, key + "/sepset_foreign", f"sepset({x},{y})={rec}, accepted {acc}")
            ctx.check(any(set(Z) <= un for Z in acc), key + "/sepset_incomplete", f"sepset({x},{y})={rec}, accepted {acc}")
        else:
            ctx.event("retentions_justified")
            for a, b in ((x, y), (y, x)):
                rest = sorted(adj[a] - {b})
                for k in range(len(rest) + 1):
                    for S in itertools.combinations(rest, k):
                        p = q.get(frozenset(S))
                        ctx.check(p is not None, key + "/untested_retention",
                                  f"edge {x}-{y} kept without asking {a} _||_ {b} | {S} (neighbours of {a} in the result)")
                        if p is not None:
                            ctx.check(p <= alpha, key + "/ignored_independence", f"edge {x}-{y} kept although {S} separated them (p={p})")
    # level discipline: conditioning sets grow
    sizes = [len(Z) for _, _, Z, _ in log]
    ctx.check(all(a <= b for a, b in zip(sizes, sizes[1:])), key + "/level_order", "conditioning-set sizes not nondecreasing")
    return adj


def skel(ctx):
    n, E, alpha, spec = spec_for(ctx, lo=4, hi=9)
    stable = bool(ctx.rng.random() < .6)
    data = lib.oracle_data(n, n + 2)
    cit = CIT(data, "vf_oracle", spec=spec)
    ctx.note({"n": n, "E": lib.E_(E), "flip": spec.flip, "alpha": alpha, "stable": stable})
    ok, cg = ctx.call("skeleton_discovery", SkeletonDiscovery.skeleton_discovery, data, alpha, cit, stable, None, False, False)
    if not ok:
        return
    log = list(spec.log)
    adj = check_skeleton(ctx, cg, n, spec, alpha, stable, "skel/" + ("stable" if stable else "orig"), log)
    ctx.check(np.all((cg.G.graph == 0) | (cg.G.graph == -1)), "skel/not_undirected", "skeleton has orientation")
    if stable:
        radj, rs = ref_skeleton(n, spec, alpha)
        ctx.check(adj == radj, "skel/stable_differs",
                  f"order-independent skeleton should be {radj}, got {adj}")
        for x, y in itertools.combinations(range(n), 2):
            if y not in radj[x] and y not in adj[x]:
                un = set().union(*[set(S) for S in cg.sepset[x, y]])
                ctx.check(un == set().union(*[set(S) for S in rs[frozenset((x, y))]]), "skel/stable_sepset",
                          f"sepset({x},{y}) covers {un}; separating sets at the removal level: {rs[frozenset((x, y))]}")
    if spec.flip:
        ctx.state(alpha, stable, [sorted(a) for a in adj])


def order(ctx):
    """the stable skeleton does not depend on the column order"""
    n, E, alpha, spec = spec_for(ctx, lo=4, hi=8)
    perm = [int(v) for v in ctx.rng.permutation(n)]
    ctx.note({"n": n, "E": lib.E_(E), "perm": perm, "flip": spec.flip})

    class P:
        log = []

        def p(self, x, y, Z):
            return spec.p(perm[x], perm[y], frozenset(perm[z] for z in Z))
    res = []
    for s in (spec, P()):
        ok, cg = ctx.call("pc", pc, lib.oracle_data(n, n + 2), alpha, "vf_oracle", True, 0, 1, show_progress=False, spec=s)
        if not ok:
            return
        res.append(cg.G.graph)
    B = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            B[perm[i], perm[j]] = res[1][i, j]
    ctx.event("permutation_pairs")
    ctx.check(np.array_equal(res[0] != 0, B != 0), "order/skeleton", "stable skeleton changed under a column permutation")
    ctx.state(sorted(E), perm)


def cond_sets(adj, x, z):
    out = set()
    for v in (x, z):
        a = sorted(adj[v])
        for k in range(len(a) + 1):
            out |= {frozenset(S) for S in itertools.combinations(a, k)}
    return out


def candidates(n, adj, spec, alpha, cg, rule, prio):
    """{(x, y, z): sort key} of the triples that this rule calls colliders (+ definite non-colliders)"""
    C, NC = {}, []
    for y in range(n):
        for x, z in itertools.combinations(sorted(adj[y]), 2):
            if z in adj[x]:
                continue
            if rule == 0:
                if all(y not in S for S in cg.sepset[x, z]):
                    if prio == 3:
                        C[x, y, z] = max(spec.p(x, z, S) for S in cond_sets(adj, x, z) if y in S)
                    elif prio == 4:
                        C[x, y, z] = -max(spec.p(x, z, S) for S in cond_sets(adj, x, z) if y not in S)
                    else:
                        C[x, y, z] = 0
            else:
                w = [spec.p(x, z, S) for S in cond_sets(adj, x, z) if y in S]
                wo = [spec.p(x, z, S) for S in cond_sets(adj, x, z) if y not in S]
                mw, mo = max(w), max(wo)
                if rule == 1:
                    if mo > mw:
                        C[x, y, z] = mw if prio == 3 else -mo if prio == 4 else 0
                else:
                    ind_w, ind_o = mw > alpha, mo > alpha
                    if not ind_w and (ind_o or mo > mw):
                        C[x, y, z] = mw if prio == 3 else -mo if prio == 4 else 0
                    elif (not ind_w and not ind_o) or (ind_w and not ind_o):
                        NC.append((x, y, z))
    return C, NC


def colliders(ctx):
    n, E, alpha, spec = spec_for(ctx, lo=4, hi=8)
    r = ctx.rng
    rule = int(r.choice([0, 1, 2], p=[.4, .3, .3]))
    prio = int(r.choice([0, 1, 2, 3, 4] if rule < 2 else [2, 3, 4]))
    stable = bool(r.random() < .6)
    data = lib.oracle_data(n, n + 2)
    cit = CIT(data, "vf_oracle", spec=spec)
    cg = SkeletonDiscovery.skeleton_discovery(data, alpha, cit, stable, None, False, False)
    A0 = cg.G.graph.copy()
    adj = adj_of(A0)
    if max(len(a) for a in adj) > 6:
        ctx.event("too_dense")
        return
    ctx.note({"n": n, "E": lib.E_(E), "flip": spec.flip, "alpha": alpha, "stable": stable, "uc_rule": rule, "uc_priority": prio})
    f = [lambda: UCSepset.uc_sepset(cg, prio), lambda: UCSepset.maxp(cg, prio), lambda: UCSepset.definite_maxp(cg, alpha, prio)][rule]
    ok, out = ctx.call(f"uc{rule}", f)
    if not ok:
        return
    key = f"uc{rule}/prio{prio}"
    B = out.G.graph
    ctx.check(np.array_equal(cg.G.graph, A0), key + "/input_mutated", "skeleton object changed")
    ctx.check(np.array_equal(A0 != 0, B != 0), key + "/skeleton", "collider orientation changed adjacencies")
    C, NC = candidates(n, adj, spec, alpha, cg, rule, prio)
    ctx.event("collider_candidates", len(C))
    D, U, X = lib.dir_und(B)
    Bi = {frozenset((i, j)) for i, j, a, b in X if a == 1 and b == 1}
    ctx.check(len(Bi) == len(X), key + "/bad_marks", X)
    heads = {(x, y) for x, y, z in C} | {(z, y) for x, y, z in C}
    for i, j in D:
        ctx.check((i, j) in heads, key + "/unjustified_arrow", f"arrow {i}->{j} but no collider triple calls for it; candidates {sorted(C)}")
    if prio == 1:
        exp = np.where(A0 != 0, -1, 0)
        for i, j in heads:
            exp[j, i] = 1
        ctx.check(np.array_equal(exp, B), key + "/orientation", lambda: f"expected {exp.tolist()}, got {B.tolist()}")
    else:
        ctx.check(not Bi, key + "/bidirected", f"bidirected edges {Bi} although priority {prio} resolves conflicts")
    if prio in (3, 4):
        exp = np.where(A0 != 0, -1, 0)
        for (x, y, z) in sorted(C, key=lambda t: C[t]):
            def out_of_y(v):
                return exp[v, y] == 1 and exp[y, v] == -1
            if not out_of_y(x) and not out_of_y(z):
                for v in (x, z):
                    exp[y, v], exp[v, y] = 1, -1
        ctx.check(np.array_equal(exp, B), key + "/orientation", lambda: f"strength order {sorted(C, key=lambda t: C[t])}: expected {exp.tolist()}, got {B.tolist()}")
    if prio == 2:
        acc = [t for t in C if (t[0], t[1]) in D and (t[2], t[1]) in D]
        for t in C:
            x, y, z = t
            ctx.check(t in acc or (y, x) in D or (y, z) in D, key + "/dropped_collider", f"{t} not oriented and nothing conflicts with it")
        ctx.check({(a, b) for x, b, z in acc for a in (x, z)} == D, key + "/partial", "arrow outside every fully oriented collider")
    if prio == 0:
        for x, y, z in C:
            for v in (x, z):
                ctx.check((v, y) in D or ((y, v) in D and (y, v) in heads), key + "/dropped_collider", f"{(x, y, z)} not oriented, not overwritten")
        if C:
            full = [t for t in C if (t[0], t[1]) in D and (t[2], t[1]) in D]
            ctx.check(full, key + "/no_full", "no collider survived although the last one processed must")
    if rule == 2:
        dn = {(min(a, c), b, max(a, c)) for a, b, c in out.definite_non_UC}
        du = {(min(a, c), b, max(a, c)) for a, b, c in out.definite_UC}
        ctx.check(dn == set(NC), key + "/definite_non_uc", f"{sorted(dn)} expected {sorted(NC)}")
        ctx.check(du <= set(C) and all((a, b) in D and (c, b) in D for a, b, c in du) if prio != 0 else True, key + "/definite_uc", f"{sorted(du)}")
        definite(ctx, key, out, {t for t in du}, set(NC))
    if spec.flip and C:
        ctx.state(rule, prio, B.tolist())


def definite(ctx, key, cg, UC, NC):
    """the rules over definite triples: every orientation follows from one, none is left"""
    A0 = cg.G.graph.copy()
    n = len(A0)
    D, U, _ = lib.dir_und(A0)
    ok, out = ctx.call("definite_meek", Meek.definite_meek, cg)
    if not ok:
        return
    B = out.G.graph
    d, u, x = lib.dir_und(B)
    ctx.check(np.array_equal(A0 != 0, B != 0) and not x and D <= d, key + "/definite-meek/skeleton", lambda: f"{A0.tolist()} became {B.tolist()}")
    adj, R = adj_of(B), ref.reach(n, d)
    t = lambda a, b, c: (min(a, c), b, max(a, c))
    for i, j in d - D | {p for s in u for p in (tuple(s), tuple(s)[::-1])}:
        rules = (any((k, i) in d and t(k, i, j) in NC for k in range(n) if k != j),
                 any((i, k) in d and (k, j) in d for k in range(n)),
                 any(t(a, j, b) in UC and t(a, i, b) in NC for a, b in itertools.combinations(sorted((adj[i] & adj[j]) - {i, j}), 2)))
        if (i, j) in d:
            ctx.check(any(rules), key + "/definite-meek/unjustified", lambda: f"{i}->{j} oriented without a rule: in {lib.show(D, U)} out {lib.show(d, u)}, colliders {sorted(UC)}, others {sorted(NC)}")
            ctx.event("definite_orientations")
        elif i not in R[j]:
            ctx.check(not any(rules[:2]), key + "/definite-meek/not-closed", lambda: f"{i}--{j} left although a rule orients it: in {lib.show(D, U)} out {lib.show(d, u)}, colliders {sorted(UC)}, others {sorted(NC)}")
            und = lambda a, b: frozenset((a, b)) in u
            full = any(t(a, j, b) in UC and t(a, i, b) in NC and b not in adj[a] and und(i, a) and und(i, b) for a, b in itertools.combinations(sorted((adj[i] & adj[j]) - {i, j}), 2))
            ctx.check(not full, key + "/definite-meek/not-closed", lambda: f"{i}--{j} left although the kite rule orients it: in {lib.show(D, U)} out {lib.show(d, u)}, colliders {sorted(UC)}, others {sorted(NC)}")
            if any(rules[2:]):
                ctx.event("kites")


def acyclic(n, D):
    return ref.is_acyclic(n, D)


def meek_stage(ctx):
    """Meek rules applied to arbitrary partially oriented graphs"""
    r = ctx.rng
    n = int(r.integers(3, 8))
    cg = CausalGraph(n)
    kind = str(r.choice(["pattern", "random", "random", "cpdag_plus"]))
    E = gen.rand_dag(r, n)
    D, U = set(), set()
    if kind == "pattern":
        for a, v, b in ref.vstructs(n, E):
            D |= {(a, v), (b, v)}
        U = {s for s in ref.skeleton(E) if not any(t in D for t in (tuple(s), tuple(s)[::-1]))}
    elif kind == "cpdag_plus":
        D, U = ref.cpdag(n, E)
        for s in sorted(U, key=sorted):
            if r.random() < .3:
                t = next(t for t in (tuple(s), tuple(s)[::-1]) if t in E)
                D = D | {t}
        U = {s for s in U if not any(t in D for t in (tuple(s), tuple(s)[::-1]))}
    else:
        if r.random() < .3:                      # a rule's arrow would close a directed path
            n = int(r.integers(5, 8))
            v = [int(w) for w in r.permutation(n)]
            i, a, b, l, path = v[0], v[1], v[2], v[3], v[4:4 + int(r.integers(1, n - 3))]
            E = set()
            D |= {(a, l), (b, l)} | set(zip([l] + path, path + [i]))
            U |= {frozenset((i, w)) for w in (a, b, l)}
            E |= {(s, t) for s, t in itertools.combinations(v, 2) if r.random() < .1 and frozenset((s, t)) not in U and not {(s, t), (t, s)} & D}
        for i, j in sorted(E):
            if r.random() < .4:
                U.add(frozenset((i, j)))
            else:
                D.add((i, j) if r.random() < .85 else (j, i))
    names_ = [x.get_name() for x in cg.G.get_nodes()]
    cg = build_cg(n, D, U, r)
    A0 = cg.G.graph.copy()
    ctx.note({"n": n, "kind": kind, "in": lib.show(D, U)})
    ok, out = ctx.call("meek", Meek.meek, cg)
    if not ok:
        return
    key = f"meek/{kind}"
    B = out.G.graph
    d, u, x = lib.dir_und(B)
    ctx.check(np.array_equal(cg.G.graph, A0), key + "/input_mutated", "")
    ctx.check(np.array_equal(A0 != 0, B != 0) and not x, key + "/skeleton", "adjacency changed or bad marks")
    ctx.check(D <= d, key + "/unoriented", f"given arrows {D - d} lost")
    ctx.event("meek_orientations", len(d - D))
    if kind != "random":
        d4, u4 = ref.meek(n, D, U, rule4=True)
        d3, u3 = ref.meek(n, D, U, rule4=False)
        ctx.check(d == d3 if d3 == d4 else (d in (d3, d4)), key + "/closure",
                  lambda: f"closure of {lib.show(D, U)} is {lib.show(d3, u3)}, got {lib.show(d, u)}")
    else:
        cyc0 = acyclic(n, D)
        if cyc0:
            ctx.check(acyclic(n, d), key + "/cycle", f"acyclic input {lib.show(D, U)} became cyclic {lib.show(d, u)}")
        adj = adj_of(B)
        R = ref.reach(n, d)
        for i, j in d - D:
            r1 = any((k, i) in d and k not in adj[j] for k in range(n) if k != j)
            r2 = any((i, k) in d and (k, j) in d for k in range(n))
            r3 = any((a, j) in d and (b, j) in d and b not in adj[a] and a in adj[i] and b in adj[i]
                     for a, b in itertools.combinations(range(n), 2) if i not in (a, b))
            r4 = any((c, k) in d and (k, j) in d and c in adj[i] and k in adj[i] and c not in adj[j] for c in range(n) for k in range(n))
            ctx.check(r1 or r2 or r3 or r4, key + "/unjustified", f"{i}->{j} oriented without a rule: in {lib.show(D, U)} out {lib.show(d, u)}")
        for s in u:
            for i, j in (tuple(s), tuple(s)[::-1]):
                if i in R[j]:
                    continue
                r1 = any((k, i) in d and k not in adj[j] for k in range(n) if k != j)
                r2 = any((i, k) in d and (k, j) in d for k in range(n))
                r3 = any((a, j) in d and (b, j) in d and b not in adj[a] and frozenset((a, i)) in u and frozenset((b, i)) in u
                         for a, b in itertools.combinations(range(n), 2) if i not in (a, b))
                ctx.check(not (r1 or r2 or r3), key + "/not_closed", f"{i}--{j} left although a rule orients it: out {lib.show(d, u)}")
    if d - D:
        ctx.state(kind, A0.tolist())


def build_cg(n, D, U, r):
    cg = CausalGraph(n)
    nodes = cg.G.get_nodes()
    for i, j in itertools.combinations(range(n), 2):
        e = cg.G.get_edge(nodes[i], nodes[j])
        if frozenset((i, j)) not in U:
            cg.G.remove_edge(e)
    for i, j in sorted(D):
        cg.G.add_edge(Edge(nodes[i], nodes[j], Endpoint.TAIL, Endpoint.ARROW))
    return cg


def orient(cg, alpha, rule, prio, bk=None, index=None):
    """the skeleton and separating sets of a search result, oriented stage by stage: index, knowledge, colliders, rules"""
    base = deepcopy(cg)
    nodes = base.G.get_nodes()
    G = GeneralGraph(nodes)
    A = base.G.graph
    for i, j in itertools.combinations(range(len(nodes)), 2):
        if A[i, j] != 0:
            head = index if index in (i, j) else None
            if head is None:
                G.add_edge(Edge(nodes[i], nodes[j], Endpoint.TAIL, Endpoint.TAIL))
            else:
                G.add_edge(Edge(nodes[head], nodes[i + j - head], Endpoint.TAIL, Endpoint.ARROW))
    base.G, base.definite_UC, base.definite_non_UC = G, [], []
    if bk is not None:
        orient_by_background_knowledge(base, bk)
    p = {0: 3, 1: 3, 2: 4}[rule] if prio == -1 else prio        # documented defaults
    if rule == 2:
        st = Meek.definite_meek(UCSepset.definite_maxp(base, alpha, p, background_knowledge=bk), background_knowledge=bk)
    else:
        st = (UCSepset.uc_sepset, UCSepset.maxp)[rule](base, p, background_knowledge=bk)
    return Meek.meek(st, background_knowledge=bk).G.graph


def composed(ctx, who, cg, alpha, cfg, bk=None, index=None):
    if max(len(a) for a in adj_of(cg.G.graph)) > 6:
        return
    exp = orient(cg, alpha, cfg[0], cfg[1], bk, index)
    ctx.event("composed")
    ctx.check(np.array_equal(exp, cg.G.graph), who + f"/uc{cfg[0]}/orientation-stages", lambda: f"{cfg}: the search gave {cg.G.graph.tolist()}, its stages give {exp.tolist()}")


def compose(ctx):
    """pc() = skeleton stage, collider stage of the chosen rule/priority, Meek stage; result well formed"""
    n, E, alpha, spec = spec_for(ctx, lo=4, hi=8)
    r = ctx.rng
    rule = int(r.choice([0, 1, 2]))
    prio = int(r.choice([-1, 0, 1, 2, 3, 4] if rule < 2 else [-1, 2, 3, 4]))
    stable = bool(r.random() < .6)
    data = lib.oracle_data(n, n + 2)
    names = gen.names(r, n)
    ctx.note({"n": n, "E": lib.E_(E), "flip": spec.flip, "alpha": alpha, "stable": stable, "uc_rule": rule, "uc_priority": prio})
    ok, cg = ctx.call("pc", pc, data, alpha, "vf_oracle", stable, rule, prio, show_progress=False, node_names=names, spec=spec)
    if not ok:
        return
    cit = CIT(data, "vf_oracle", spec=spec)
    sk = SkeletonDiscovery.skeleton_discovery(data, alpha, cit, stable, None, False, False)
    p = {0: 3, 1: 3, 2: 4}[rule] if prio == -1 else prio        # documented defaults
    st = [lambda: UCSepset.uc_sepset(sk, p), lambda: UCSepset.maxp(sk, p), lambda: UCSepset.definite_maxp(sk, alpha, p)][rule]()
    if rule == 2:
        st = Meek.definite_meek(st)
    exp = Meek.meek(st).G.graph
    B = cg.G.graph
    key = f"compose/uc{rule}/prio{prio}"
    ctx.event("pc_runs")
    ctx.check(np.array_equal(exp, B), key, lambda: f"pc gave {B.tolist()}, stages give {exp.tolist()}")
    ctx.check(np.array_equal(B != 0, (B != 0).T) and not np.any(np.diag(B)), key + "/malformed", B)
    ctx.check(set(np.unique(B)) <= {-1, 0, 1}, key + "/codes", B)
    ctx.check([x.get_name() for x in cg.G.get_nodes()] == list(names), key + "/names", "")
    d, u, x = lib.dir_und(B)
    if prio not in (1,):
        ctx.check(not x, key + "/bidirected", x)
    ctx.check(set(map(tuple, cg.find_fully_directed())) == d, key + "/find_fully_directed", "")
    ctx.check({frozenset(map(int, e)) for e in cg.find_undirected()} == u, key + "/find_undirected", "")
    ctx.check({frozenset(map(int, e)) for e in cg.find_bi_directed()} == {frozenset((i, j)) for i, j, a, b in x}, key + "/find_bi_directed", "")
    cg.to_nx_graph()
    cg.to_nx_skeleton()
    ctx.check({frozenset(e) for e in cg.nx_skel.edges()} == {frozenset((i, j)) for i, j in d} | u | {frozenset((i, j)) for i, j, a, b in x},
              key + "/nx_skel", "")
    g = {(i, j): c["color"] for i, j, c in cg.nx_graph.edges(data=True)}
    want = {e: "b" for e in d} | {t: "g" for s in u for t in (tuple(s), tuple(s)[::-1])} | \
        {t: "r" for i, j, a, b in x for t in ((i, j), (j, i))}
    ctx.check(g == want, key + "/nx_graph", lambda: f"{g} vs {want}")
    if spec.flip:
        ctx.state(rule, prio, B.tolist())


STREAMS = {
    "skeleton": Stream(skel, 500, 8000, need=["removals_justified", "retentions_justified", "ci_queries"], timeout=120),
    "order": Stream(order, 200, 3000, need=["permutation_pairs"], timeout=120),
    "colliders": Stream(colliders, 500, 8000, need=["collider_candidates"], timeout=120),
    "meek": Stream(meek_stage, 500, 8000, need=["meek_orientations"], timeout=120),
    "compose": Stream(compose, 300, 5000, need=["pc_runs"], timeout=120),
}
