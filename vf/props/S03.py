"""Exact score-based search: the returned DAG has the best score of all DAGs that obey the constraints."""
import itertools
import math

import numpy as np

from causallearn.search.ScoreBased.ExactSearch import bic_exact_search

from .. import gen, lib, ref
from ..core import Stream

ID = "S03"
RULE = "a case = one data set with one set of structural constraints, solved by several search variants; distinct by optimum graph and constraints"
ASSUMPTIONS = ["score of a node = n ln(rss/n) + k ln n on the data as given (no intercept), full-rank data",
               "optimum by an independent dynamic program over variable subsets, itself equal to brute force over all DAGs on up to 4 variables (checked at run time)"]


def table(X):
    n, d = X.shape
    c = {}

    def s(i, P):
        k = (i, P)
        if k not in c:
            y = X[:, i]
            if P:
                A = X[:, sorted(P)]
                y = y - A @ np.linalg.lstsq(A, y, rcond=None)[0]
            c[k] = n * math.log((y @ y) / n) + len(P) * math.log(n)
        return c[k]
    return s


def optimum(d, s, sup, inc, maxp):
    """(best total, best choice per node not unique) over DAGs with inc <= G <= sup and at most maxp parents"""
    allowed = []
    for i in range(d):
        must = frozenset(np.where(inc[:, i])[0].tolist())
        may = frozenset(np.where(sup[:, i])[0].tolist())
        allowed.append([frozenset(c) for k in range(min(maxp, len(may)) + 1) for c in itertools.combinations(sorted(may), k) if must <= set(c)])
    best = {frozenset(): 0.0}
    for k in range(1, d + 1):
        for S in itertools.combinations(range(d), k):
            S = frozenset(S)
            b = math.inf
            for i in S:
                R = S - {i}
                if best[R] < math.inf:
                    b = min(b, best[R] + min((s(i, P) for P in allowed[i] if P <= R), default=math.inf))
            best[S] = b
    return best[frozenset(range(d))]


def data(r, d):
    N = int(r.choice([d + 3, 12, 40, 200]))
    X, _ = gen.sem_linear(r, d, gen.rand_dag(r, d), N, noise=str(r.choice(["gauss", "uniform", "exp"])), lo=.2)
    X = X * 10 ** r.uniform(-2, 2, d) if r.random() < .4 else X
    return X - X.mean(0) if r.random() < .7 else X + .3


def constraints(r, d):
    sup, inc, maxp = None, None, None
    o = r.permutation(d)
    if r.random() < .5:
        inc = np.zeros((d, d))
        for i, j in itertools.combinations(range(d), 2):
            if r.random() < .25:
                inc[o[i], o[j]] = 1
    if r.random() < .5:
        sup = (r.random((d, d)) < r.uniform(.3, .9)).astype(float)
        if inc is not None:
            sup = np.maximum(sup, inc)
        if r.random() < .3:
            sup = np.maximum(sup, sup.T)
        np.fill_diagonal(sup, 0)
    if r.random() < .4:
        maxp = int(r.integers(0, d))
        if inc is not None:
            maxp = max(maxp, int(inc.sum(0).max()))
    return sup, inc, maxp


def same(a, b):
    return (a is None and b is None) or np.array_equal(a, b)


def case(ctx, d, variants):
    r = ctx.rng
    X = data(r, d)
    sup, inc, maxp = constraints(r, d)
    s = table(X)
    S = np.ones((d, d)) - np.eye(d) if sup is None else sup
    I = np.zeros((d, d)) if inc is None else inc
    best = optimum(d, s, S, I, d if maxp is None else maxp)
    if d <= 4 and ctx.index % 5 == 0:
        bf = min(sum(s(i, frozenset(P)) for i, P in enumerate(ref.parents_of(d, E))) for E in ref.all_dags(d)
                 if all(S[a, b] for a, b in E) and all((a, b) in E for a, b in zip(*np.where(I))) and (maxp is None or all(len(p) <= maxp for p in ref.parents_of(d, E))))
        ctx.check(abs(bf - best) < 1e-7 * (1 + abs(best)), "reference/optimum", lambda: f"reference optimum {best}, brute force {bf}")
        ctx.event("brute_force")
    X0, S0, I0 = X.copy(), None if sup is None else sup.copy(), None if inc is None else inc.copy()
    graphs = []
    for kw in variants:
        a = dict(kw)
        if sup is not None:
            a["super_graph"] = sup
        if inc is not None:
            a["include_graph"] = inc
        if maxp is not None:
            a["max_parents"] = maxp
        who = f"exact/{kw.get('search_method', 'astar')}{'/k-cycle' if kw.get('use_k_cycle_heuristic') else ''}"
        B, st = bic_exact_search(X, **a)
        B = np.asarray(B)
        ctx.event("searches")
        if ctx.check(B.shape == (d, d) and set(np.unique(B)) <= {0, 1}, f"{who}/shape"):
            E = {(int(i), int(j)) for i, j in zip(*np.where(B))}
            pa = ref.parents_of(d, E)
            ctx.check(ref.is_acyclic(d, E), f"{who}/cyclic", lambda: f"{kw}: {lib.E_(E)}")
            ctx.check(all(S[e] for e in E), f"{who}/super_graph", lambda: f"{kw}: {lib.E_(E)} leaves the super graph {S.tolist()}")
            ctx.check(np.all(B >= I), f"{who}/include_graph", lambda: f"{kw}: {lib.E_(E)} misses edges of {I.tolist()}")
            ctx.check(maxp is None or max(map(len, pa)) <= maxp, f"{who}/max_parents", lambda: f"{kw} max_parents={maxp}: {lib.E_(E)}")
            t = sum(s(i, frozenset(P)) for i, P in enumerate(pa))
            ctx.check(t <= best + 1e-7 * (1 + abs(best)), f"{who}/not-optimal", lambda: f"{kw} score {t} of {lib.E_(E)}, the optimum is {best}")
            ctx.check(isinstance(st, dict) and "n_parent_graphs_entries" in st, f"{who}/stats")
            graphs.append(tuple(sorted(E)))
    ctx.check(np.array_equal(X, X0) and same(sup, S0) and same(inc, I0), "exact/inputs-mutated")
    ctx.state(graphs[0] if graphs else None, maxp, None if sup is None else sup.tolist(), None if inc is None else inc.tolist())
    ctx.note({"d": d, "rows": len(X), "max_parents": maxp, "super": sup is not None, "include": inc is not None, "graph": lib.E_(graphs[0]) if graphs else None, "optimum": best})


def methods(ctx):
    case(ctx, int(ctx.rng.integers(1, 7)), [{}, {"use_path_extension": False}, {"search_method": "dp"}, {"search_method": "dp", "use_path_extension": False}])


def kcycle(ctx):
    d = int(ctx.rng.integers(2, 7))
    case(ctx, d, [{"use_k_cycle_heuristic": True, "k": k, "use_path_extension": p} for k in sorted({2, 3, int(ctx.rng.integers(1, d + 1))}) for p in (True, False)])


STREAMS = {
    "methods": Stream(methods, 300, 9000, need={"searches": 800, "brute_force": 10}),
    "kcycle": Stream(kcycle, 200, 6000, need={"searches": 500}),
}
