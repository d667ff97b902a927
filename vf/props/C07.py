"""PC with missing values: detection of the causes of missingness, corrected tests, corrected skeleton."""
import itertools

import networkx as nx
import numpy as np
from scipy import stats

from causallearn.search.ConstraintBased.CDNOD import cdnod
from causallearn.search.ConstraintBased.PC import detect_parent, get_missingness_index, get_parent_missingness_pairs, pc
from causallearn.utils.cit import CIT

from .. import gen, lib, oracles, ref
from ..core import Stream
from .C01 import CONFIGS
from .C02 import adj_of, composed
from .C03 import knowledge_of, other_world, respected
from .C06 import augmented

ID = "C07"
RULE = "a case = one missing-value search with traced answers, one query to the corrected test, or one data set; distinct by world, configuration and query"
ASSUMPTIONS = ["no variable causes its own missingness and indicators cause nothing (the documented setting)",
               "the corrected test is randomised (shuffled predictors); its Fisher z statistics are compared in mean with an independent implementation",
               "the search streams answer the deletion test and the corrected test by d-separation in the graph with missingness indicators"]


def mworld(r, n, E, prob=.5):
    """parents of missingness indicators"""
    kind = int(r.integers(3))
    R = {}
    for v in range(n):
        if r.random() < prob:
            o = [u for u in range(n) if u != v]
            ps = [] if kind == 0 else [u for u in o if r.random() < r.choice([.2, .4])]
            R[v] = set(ps)
    return R


def holes(r, X, R):
    X = X.astype(float).copy()
    for v in R:
        X[r.random(len(X)) < .2, v] = np.nan
        X[int(r.integers(len(X))), v] = np.nan
    for v in R:                                  # at least one value stays
        if np.isnan(X[:, v]).all():
            X[0, v] = 0
    return X


def grow(adj, ask, alpha, pairs, stop):
    """stable adjacency search restricted to ordered pairs; ask(x, y, S) -> p"""
    d = 0
    while stop(adj) >= d:
        snap_ = [set(a) for a in adj]
        for x, y in pairs:
            if y in snap_[x]:
                for S in itertools.combinations(sorted(snap_[x] - {y}), d):
                    if ask(x, y, S) > alpha:
                        adj[x].discard(y)
                        adj[y].discard(x)
        d += 1
    return adj


def reference(w, order_free=True):
    """(parents of indicators, skeleton after deletion tests, skeleton after correction) by an independent stable search"""
    n, a = w.n, w.alpha
    prt = {}
    for v in w.ind:
        adj = grow([set(range(n)) - {i} for i in range(n)], lambda x, y, S: w.p(x, y, S, r=v), a, [(v, y) for y in range(n) if y != v], lambda A: n - 2)
        if adj[v]:
            prt[v] = set(adj[v])
    allp = list(itertools.permutations(range(n), 2))
    top = lambda A: max(map(len, A)) - 1
    first = grow([set(range(n)) - {i} for i in range(n)], lambda x, y, S: w.p(x, y, S), a, allp, top)
    skel = [set(s) for s in first]
    last = grow([set(s) for s in first], lambda x, y, S: w.mc(x, y, S, skel, prt), a, allp, top)
    return prt, skel, last


def stages(log):
    """split the trace into (indicator questions, deletion questions, corrected questions)"""
    ind, dele, corr = {}, {}, {}
    for x, y, Z, p, k, what in log:
        if what == "corrected":
            corr.setdefault(frozenset((x, y)), {})[frozenset(Z)] = (p, k)
        elif k is not None:
            ind.setdefault(k, {}).setdefault(frozenset((x, y)), {})[frozenset(Z)] = p
        else:
            dele.setdefault(frozenset((x, y)), {})[frozenset(Z)] = p
    return ind, dele, corr


def search(ctx, noise=False):
    r = ctx.rng
    index = r.random() < (.4 if noise else .25)  # CD-NOD with missing values
    n = int(r.integers(2, 7))
    E = augmented(r, n - 1) if index else gen.rand_dag(r, n)
    R = mworld(r, n, E, float(r.choice([.3, .6])))
    if index:
        R.pop(n - 1, None)
    alpha = float(r.choice([.01, .05, .2]))
    w = oracles.MVWorld(n, E, R, alpha=alpha, salt=ctx.index, noise=float(r.choice([.05, .15, .3])) if noise else 0)
    X = holes(r, lib.oracle_data(n, n + 12), R)
    X0 = X.copy()
    names = gen.names(r, n)
    pool = CONFIGS + [c for c in CONFIGS if c[1] == -1] * 3      # the defaults more often
    cfg = pool[int(r.integers(len(pool)))] if r.random() < (.8 if noise else .5) else (0, int(r.choice([-1, 0, 1, 2, 3, 4])))
    stable = bool(r.random() < .6)
    bk, F, Q = None, set(), set()
    if not index and r.random() < .4:
        if noise:
            _, can, order = other_world(r, n)
            bk, F, Q = knowledge_of(r, n, can, names, order)
        else:
            bk, F, Q = knowledge_of(r, n, lambda i, j: (i, j) in E, names, ref.topo(n, E))
    with oracles.mv_session(w):
        if index:
            ok, cg = ctx.call("mvcdnod", cdnod, X[:, :-1], X[:, -1:], alpha, "vf_mv", stable, cfg[0], cfg[1], mvcdnod=True, show_progress=False)
        else:
            ok, cg = ctx.call("mvpc", pc, X, alpha, "vf_mv", stable, cfg[0], cfg[1], True, show_progress=False, node_names=names, background_knowledge=bk)
        if not ok:
            return
        mark = len(w.log)
        composed(ctx, "mvcdnod" if index else "mvpc", cg, alpha, cfg, bk, n - 1 if index else None)
        if index:                                # the same search as the missing-value PC on the augmented data
            ok, same = ctx.call("mvpc", pc, X, alpha, "vf_mv", stable, cfg[0], cfg[1], True, show_progress=False)
            ctx.check(ok and adj_of(same.G.graph) == adj_of(cg.G.graph), "mvcdnod/skeleton-of-mvpc", lambda: f"{adj_of(cg.G.graph)}, missing-value PC on the augmented data finds {adj_of(same.G.graph)}, stable={stable}")
        del w.log[mark:]
    ctx.check(np.array_equal(X, X0, equal_nan=True), "mvpc/data-mutated")
    who = "mvcdnod" if index else "mvpc"
    d, u, x = lib.dir_und(cg.G.graph)
    txt = lambda: f"DAG {lib.E_(E)} missing {R} {cfg} stable={stable} forbidden {sorted(F)} required {sorted(Q)}: got {lib.show(d, u)} {x}"
    if not index:
        ctx.check([v.get_name() for v in cg.G.get_nodes()] == names, "mvpc/names", txt)
    adj = adj_of(cg.G.graph)
    prt, first, last = reference(w)
    bans = {frozenset(p) for p in F if p[::-1] in F}
    ind, dele, corr = stages(w.log)
    # the causes of missingness that the search worked with
    got_prt = {}
    for q in corr.values():
        for p, k in q.values():
            got_prt = dict(k[1])
            break
        break
    if corr:
        ctx.event("corrections_asked", sum(map(len, corr.values())))
        if stable:
            ctx.check({m: set(P) for m, P in got_prt.items()} == prt, who + "/parents-of-missingness", lambda: txt() + f", {got_prt} but the answers imply {prt}")
    if stable and not bans:
        ctx.check(adj == last, who + "/skeleton", lambda: txt() + f", skeleton should be {last}")
        ctx.event("edges_corrected_away", sum(map(len, first)) // 2 - sum(map(len, last)) // 2)
    # every decision is justified by an answer
    for i, j in itertools.combinations(range(n), 2):
        p = frozenset((i, j))
        a, c = dele.get(p, {}), corr.get(p, {})
        if j not in adj[i]:
            ctx.check(any(v > alpha for v in a.values()) or any(v > alpha for v, _ in c.values()) or p in bans, who + "/unjustified-removal", lambda: txt() + f", {i},{j}: {a} {c}")
            ctx.check(cg.sepset[i, j] and cg.sepset[j, i], who + "/no-separating-set", lambda: txt() + f", {i},{j}")
        else:
            for base in (adj[i] - {j}, adj[j] - {i}):
                for k in range(len(base) + 1):
                    for Z in itertools.combinations(sorted(base), k):
                        ctx.check(c.get(frozenset(Z), (1,))[0] <= alpha, who + "/untested-adjacency", lambda: txt() + f", {i},{j} kept, corrected answer given {Z}: {c.get(frozenset(Z))}")
            ctx.event("kept_edges")
    respected(ctx, who, d, u, x, F, Q)
    if index and cfg[1] not in (0, 1):
        ctx.check(all((n - 1, j) in d for j in adj[n - 1]), who + "/index-edge", txt)
        ctx.event("index_edges", len(adj[n - 1]))
    mcar = not any(R.values())
    # a banned pair without an accepting answer has no separating set to orient by
    blind = any(not any(v > alpha for v in dele.get(b, {}).values()) and b not in ref.skeleton(E) for b in bans)
    if not noise and not blind and (cfg[0] == 0 or mcar) and {frozenset((i, j)) for i in range(n) for j in adj[i]} == ref.skeleton(E):
        B = {(i, j) for i, j in E if (i, j) in Q or (j, i) in F or index and i == n - 1}
        V = {e for a, v, b in ref.vstructs(n, E) for e in ((a, v), (b, v))}
        und = {s for s in ref.skeleton(E) if not any(t in V | B for t in (tuple(s), tuple(s)[::-1]))}
        lo, hi = ref.meek(n, V | B, und, rule4=False)[0], ref.meek(n, V | B, und, rule4=True)[0]
        ctx.check(not x and lo <= d <= hi, who + f"/orientation/uc{cfg[0]}", lambda: txt() + f", should orient {sorted(lo)}")
        ctx.event("exact_oriented")
    if mcar and not noise:
        ctx.check({frozenset((i, j)) for i in range(n) for j in adj[i]} == ref.skeleton(E), who + "/mcar-skeleton", txt)
        ctx.event("mcar")
    ctx.state(n, sorted(E), sorted((v, tuple(sorted(P))) for v, P in R.items()), cfg, stable, index, sorted(F), sorted(Q))
    ctx.note({"n": n, "E": lib.E_(E), "missing": {v: sorted(P) for v, P in R.items()}, "cfg": cfg, "stable": stable, "cdnod": index})


def search_truth(ctx):
    search(ctx)


def search_noisy(ctx):
    search(ctx, noise=True)


def fz(X, i, j, S):
    """Fisher z statistic (signed) of columns i, j given S"""
    v = [i, j] + list(S)
    P = np.linalg.pinv(np.corrcoef(X[:, v], rowvar=False))
    rr = -P[0, 1] / np.sqrt(P[0, 0] * P[1, 1])
    return np.sqrt(len(X) - len(S) - 3) * np.arctanh(np.clip(rr, -1 + 1e-12, 1 - 1e-12))


def holes_mar(r, X, R, strength=1.0):
    Y = X.copy()
    for v, P in R.items():
        if P:
            s = sum(stats.zscore(X[:, p]) for p in P) + strength * r.normal(size=len(X)) * .5
            Y[s > np.quantile(s, r.uniform(.6, .85)), v] = np.nan
        else:
            Y[r.random(len(X)) < r.uniform(.05, .3), v] = np.nan
    return Y


def corrected(ctx):
    """one question to the corrected test: same route (no correction / correction) and same law as an independent implementation"""
    r = ctx.rng
    n = int(r.integers(3, 7))
    E = gen.rand_dag(r, n)
    N = int(r.choice([60, 200, 600]))
    X, _ = gen.sem_linear(r, n, E, N)
    R = {v: {u for u in range(n) if u != v and r.random() < .35} for v in range(n) if r.random() < .6}
    M = holes_mar(r, X, R)
    # knowledge about parents may be incomplete or wrong: the test takes what it is given
    prt = {v: {u for u in range(n) if u != v and r.random() < .4} for v in range(n) if r.random() < .6}
    prt = {v: P for v, P in prt.items() if P}
    order = [int(v) for v in r.permutation(sorted(prt))]
    prt_m = {"m": order, "prt": [np.array(sorted(prt[v])) for v in order]}
    sk = nx.Graph()
    sk.add_nodes_from(range(n))
    sk.add_edges_from([(i, j) for i, j in itertools.combinations(range(n), 2) if r.random() < .7])
    adj = [set(sk.neighbors(v)) for v in range(n)]
    x, y = (int(v) for v in r.choice(n, 2, replace=False))
    rest = [v for v in range(n) if v not in (x, y)]
    S = tuple(int(v) for v in r.permutation(rest)[: int(r.integers(0, min(3, len(rest)) + 1))])
    W = sorted(oracles.correction_set(x, y, S, adj, prt))
    var = [x, y] + list(S)
    T = M[~np.isnan(M[:, var + W]).any(1)]
    if len(T) < len(var) + len(W) + 15 or (W and min(T[:, v].std() for v in var + W) < 1e-6):
        return ctx.event("too_few_rows")
    M0 = M.copy()
    test = CIT(M, "mc_fisherz")
    if not W:
        ok, p = ctx.call("mc_fisherz", test, x, y, S, sk, prt_m)
        want = 2 * stats.norm.sf(abs(fz(T, x, y, S)))
        ctx.check(ok and abs(p - want) < 1e-8, "corrected/without-correction", lambda: f"p {p}, test-wise deletion gives {want}; query {(x, y, S)} skeleton {adj} parents {prt}")
        ctx.event("uncorrected")
    else:
        got = []
        for _ in range(60):
            ok, p = ctx.call("mc_fisherz", test, x, y, S, sk, prt_m)
            if not ok:
                return
            got.append(stats.norm.isf(min(max(p, 1e-300), 1) / 2))
        complete = M[~np.isnan(M[:, W]).any(1)][:, W]
        A = np.column_stack([np.ones(len(T)), T[:, W]])
        B = np.linalg.lstsq(A, T[:, var], rcond=None)[0]
        res = T[:, var] - A @ B
        rng = np.random.default_rng([ctx.seed, ctx.index, 7])
        ref_ = []
        for _ in range(240):
            rows = complete[rng.permutation(len(complete))[: len(T)]]
            ref_.append(abs(fz(np.column_stack([np.ones(len(T)), rows]) @ B + res, 0, 1, range(2, len(var)))))
        got, ref_ = np.minimum(got, 7), np.minimum(ref_, 7)          # p-values below about 1e-12 are dominated by rounding
        se = np.sqrt(np.var(ref_) * (1 / 60 + 1 / 240) + np.var(got) / 60) + 1e-6
        ctx.check(abs(np.mean(got) - np.mean(ref_)) < 7 * se + 1e-6, "corrected/law",
                  lambda: f"mean |z| {np.mean(got):.4f}, should be {np.mean(ref_):.4f} (se {se:.4f}); query {(x, y, S)}, correct by {W}, rows {len(T)} of {N}")
        ctx.event("corrected")
        if oracles.correction_set(x, y, S, adj, prt) - {p for v in var for p in prt.get(v, ())}:
            ctx.event("indirect_parents")
    ctx.check(np.array_equal(M, M0, equal_nan=True), "corrected/data-mutated")
    ctx.check([list(map(int, p)) for p in prt_m["prt"]] == [sorted(prt[v]) for v in order] and prt_m["m"] == order, "corrected/parents-mutated")
    ctx.state(x, y, S, W, ctx.index)
    ctx.note({"query": (x, y, S), "corrected_by": W, "rows": len(T)})


def effect(ctx):
    """missingness caused by a common effect makes X and Y look dependent; the corrected test removes that"""
    r = ctx.rng
    N = 5000
    x, y = r.normal(size=(2, N))
    a, b = r.uniform(.8, 1.5, 2) * r.choice([-1, 1], 2)
    W = a * x + b * y + .5 * r.normal(size=N)
    Z = np.column_stack([x, y, W])
    perm = [int(v) for v in r.permutation(3)]
    pos = {v: perm.index(v) for v in range(3)}
    M = Z[:, perm].copy()
    M[W > 0, pos[0]] = np.nan
    ok, prt = ctx.call("get_parent_missingness_pairs", get_parent_missingness_pairs, M, 1e-4, CIT(M, "mv_fisherz"), True)
    if not ok:
        return
    ctx.check(list(prt["m"]) == [pos[0]] and pos[2] in [int(v) for v in prt["prt"][0]], "effect/cause-not-found", lambda: f"{prt}, the missingness of {pos[0]} is caused by {pos[2]}")
    ok, cg = ctx.call("mvpc", pc, M, 1e-4, "mv_fisherz", True, 0, 2, True, show_progress=False)
    if not ok:
        return
    ok, plain = ctx.call("pc", pc, M, 1e-4, "mv_fisherz", True, 0, 2, show_progress=False)
    A, P = adj_of(cg.G.graph), adj_of(plain.G.graph)
    ctx.check(pos[1] in P[pos[0]], "effect/premise", "test-wise deletion does not show the spurious edge")
    d, u, o = lib.dir_und(cg.G.graph)
    ctx.check(d == {(pos[0], pos[2]), (pos[1], pos[2])} and not u and not o, "effect/corrected-graph", lambda: f"{lib.show(d, u)} {o}, should be {pos[0]} -> {pos[2]} <- {pos[1]}")
    ctx.event("spurious_edges_removed")
    ctx.state(ctx.index)


def complete(ctx):
    """without missing values the search is PC with Fisher-Z"""
    r = ctx.rng
    n = int(r.integers(2, 7))
    E = gen.rand_dag(r, n)
    X, _ = gen.sem_linear(r, n, E, int(r.choice([40, 200, 1000])))
    cfg, stable = CONFIGS[int(r.integers(len(CONFIGS)))], bool(r.random() < .6)
    a = float(r.choice([.01, .05, .2]))
    f = str(r.choice(["mv_fisherz", "fisherz"]))
    ok1, g1 = ctx.call("mvpc", pc, X, a, f, stable, cfg[0], cfg[1], True, show_progress=False)
    ok2, g2 = ctx.call("pc", pc, X, a, "fisherz", stable, cfg[0], cfg[1], show_progress=False)
    if ok1 and ok2:
        t = lambda g: sorted(g)
        s1 = {(i, j) for i in range(n) for j in adj_of(g1.G.graph)[i]}
        s2 = {(i, j) for i in range(n) for j in adj_of(g2.G.graph)[i]}
        ctx.check(s1 == s2 if stable else s1 <= s2, "complete/skeleton", lambda: f"{sorted(s1)} with and {sorted(s2)} without the missing-value machinery, n={n} {cfg} {stable}")
        if stable and s1 == s2 and cfg[0] == 0:
            ctx.check(np.array_equal(g1.G.graph, g2.G.graph), "complete/graph", lambda: f"{g1.G.graph.tolist()} and {g2.G.graph.tolist()} {cfg}")
        ctx.check(get_missingness_index(X) == [], "complete/missingness-index")
        ctx.event("complete_runs")
        ctx.state(g1.G.graph.tolist(), cfg, stable)
    M = X.copy()
    bad = sorted(int(v) for v in r.permutation(n)[: int(r.integers(0, n))])
    for v in bad:
        M[int(r.integers(len(M))), v] = np.nan
    ctx.check([int(v) for v in get_missingness_index(M)] == bad, "missingness-index", lambda: f"{get_missingness_index(M)}, should be {bad}")
    v = int(r.integers(n))
    if v not in bad:
        ctx.check(len(detect_parent(v, M, a, CIT(M, "mv_fisherz"), True)) == 0, "complete-variable-has-cause-of-missingness")


STREAMS = {
    "search_truth": Stream(search_truth, 500, 20000, need=["mcar", "exact_oriented", "edges_corrected_away", "index_edges"], timeout=60),
    "search_noisy": Stream(search_noisy, 400, 10000, need=["kept_edges", "composed"], timeout=60),
    "corrected": Stream(corrected, 160, 5000, need=["corrected", "uncorrected", "indirect_parents"], timeout=60),
    "effect": Stream(effect, 24, 400, need=["spurious_edges_removed"], timeout=60),
    "complete": Stream(complete, 200, 6000, need=["complete_runs"], timeout=60),
}
