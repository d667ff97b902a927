"""Parametric independence tests return the textbook p-value for every query form."""
import itertools

import networkx as nx
import numpy as np
from scipy import stats

from causallearn.utils.cit import CIT

from .. import gen, ref
from ..core import Stream

ID = "T01"
RULE = ("a case = one data set and a set of (X, Y, S) queries asked in several equivalent forms; non-trivial when a query has a p-value strictly between 0 and 1; "
        "distinct by rounded p-values")
ASSUMPTIONS = ["reference p-values: regression residual correlations and scipy contingency tables per stratum; agreement to 1e-6 (absolute or relative)",
               "queries have more than |S|+3 usable rows and a non-singular correlation matrix (condition number below 1e8)"]


def close(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol + tol * abs(float(b))


def forms(ctx, x, y, S):
    """equivalent ways to ask the same question"""
    r = ctx.rng
    S = list(S)
    out = [(x, y, tuple(S)), (y, x, list(S)), (np.int64(x), np.int32(y), tuple(np.int64(s) for s in reversed(S))), (x, y, np.array(S, dtype=int)),
           (x, y, set(S)), (x, y, list(S) + S[:1])]
    if not S:
        out += [(x, y, None), (x, y, [])]
    k = [int(v) for v in r.permutation(len(out))[:3]]
    return [out[0]] + [out[i] for i in k]


def queries(ctx, n, m, maxs=None):
    r = ctx.rng
    out = []
    for _ in range(m):
        x, y = (int(v) for v in r.permutation(n)[:2])
        rest = [v for v in range(n) if v not in (x, y)]
        k = int(r.integers(0, min(len(rest), maxs if maxs is not None else len(rest)) + 1))
        out.append((x, y, sorted(int(v) for v in r.permutation(rest)[:k])))
    return out


def pcor_p(X, x, y, S):
    n = len(X)
    A = np.column_stack([np.ones(n)] + [X[:, s] for s in S])
    A = A / np.abs(A).max(0)
    rx = X[:, x] - A @ np.linalg.lstsq(A, X[:, x], rcond=None)[0]
    ry = X[:, y] - A @ np.linalg.lstsq(A, X[:, y], rcond=None)[0]
    r = float(rx @ ry / np.sqrt((rx @ rx) * (ry @ ry)))
    if abs(r) > 1 - 1e-13:
        return 0.0
    return 2 * stats.norm.sf(np.sqrt(n - len(S) - 3) * abs(np.arctanh(r)))


def fz_data(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    N = int(r.choice([n + 4, n + 6, 20, 60, 300, 1500]))
    X, _ = gen.sem_linear(r, n, gen.rand_dag(r, n), N, noise=str(r.choice(["gauss", "uniform", "exp"])), offset=bool(r.random() < .5))
    if r.random() < .4:
        X = X * 10.0 ** r.integers(-4, 5, n)
        ctx.event("mixed_scales")
    if r.random() < .15:
        X = np.round(X * 3).astype(int)
        ctx.event("integer_data")
    return n, N, X


def fisher(ctx):
    n, N, X = fz_data(ctx)
    if np.any(np.std(X.astype(float), axis=0) == 0) or np.linalg.cond(np.corrcoef(X.T)) > 1e8:
        ctx.event("degenerate_skipped")
        return
    keep = X.copy()
    t = CIT(X, "fisherz")
    ctx.note({"n": n, "N": N})
    got = []
    for x, y, S in queries(ctx, n, 8, min(n, N - 4)):
        want = pcor_p(X.astype(float), x, y, S)
        for q in forms(ctx, x, y, S):
            p = t(*q)
            ctx.event("p_values")
            ctx.check(close(p, want) and 0 <= p <= 1, "fisherz/value", f"N={N} {q}: p={p}, should be {want}")
        got.append(round(want, 9))
    if any(0 < g < 1 for g in got):
        ctx.state(got)
    ctx.check(np.array_equal(X, keep), "fisherz/data-changed")
    # unaffected by affine changes of scale and by the order of rows
    Y = X[ctx.rng.permutation(N)] * (ctx.rng.uniform(.3, 4, n) * ctx.rng.choice([-1, 1], n)) + ctx.rng.normal(size=n)
    u = CIT(Y, "fisherz")
    for x, y, S in queries(ctx, n, 3, min(n, N - 4)):
        ctx.event("invariance")
        ctx.check(close(t(x, y, S), u(x, y, S)), "fisherz/not-invariant", f"{x},{y}|{S}: {t(x, y, S)} vs {u(x, y, S)}")
    # a deterministic relation is maximal dependence, or is refused
    Z = np.column_stack([X, X[:, 0] * 2 + 1])
    try:
        p = CIT(Z, "fisherz")(0, n)
        ctx.event("deterministic")
        ctx.check(p < 1e-3, "fisherz/deterministic", f"x and 2x+1: p={p}")
    except ValueError:
        ctx.event("deterministic_refused")


def strat_p(X, x, y, S, lam):
    groups = {}
    for row in X:
        groups.setdefault(tuple(row[s] for s in S), []).append((row[x], row[y]))
    stat = df = 0
    for rows in groups.values():
        a, b = sorted({u for u, _ in rows}), sorted({v for _, v in rows})
        T = np.zeros((len(a), len(b)))
        for u, v in rows:
            T[a.index(u), b.index(v)] += 1
        E = np.outer(T.sum(1), T.sum(0)) / T.sum()
        stat += 2 * np.sum(T[T > 0] * np.log(T[T > 0] / E[T > 0])) if lam else np.sum((T - E) ** 2 / E)
        df += (len(a) - 1) * (len(b) - 1)
    return 1.0 if df == 0 else stats.chi2.sf(stat, df)


def contingency(ctx):
    r = ctx.rng
    n = int(r.integers(2, 9))
    N = int(r.choice([6, 25, 80, 300]))
    big = r.random() < .35
    X, lev = gen.sem_discrete(r, n, gen.rand_dag(r, n), N, maxlev=9 if big else 4)
    code = str(r.choice(["int", "shifted", "float", "str", "gaps"]))
    if code == "shifted":
        X = X - 3
    elif code == "float":
        X = X * .5 + .25
    elif code == "gaps":
        X = X * 7 - 5
    elif code == "str":
        X = np.array([["abcdefghijkl"[v] for v in row] for row in X])
    if r.random() < .1:
        X[:, int(r.integers(n))] = X[0, 0]
        ctx.event("constant_column")
    ctx.event("coding:" + code)
    meth = str(r.choice(["chisq", "gsq"]))
    ctx.event(meth)
    t = CIT(X, meth)
    card = [len(set(X[:, i])) for i in range(n)]
    ctx.note({"n": n, "N": N, "method": meth, "levels": card, "coding": code})
    got = []
    for x, y, S in queries(ctx, n, 6):
        want = strat_p(X, x, y, S, meth == "gsq")
        if int(np.prod([card[v] for v in [x, y] + S])) >= 1e5:
            ctx.event("sparse_path")
        if S:
            ctx.event("stratified")
        for q in forms(ctx, x, y, S):
            p = t(*q)
            ctx.event("p_values")
            ctx.check(close(p, want), f"{meth}/value", f"N={N} levels={card} {q}: p={p}, should be {want}")
        got.append(round(float(want), 9))
    if any(0 < g < 1 for g in got):
        ctx.state(meth, got)


def wide(ctx):
    """many levels, and more combinations of the conditioning variables than memory or 64 bits could number"""
    r = ctx.rng
    meth = str(r.choice(["chisq", "gsq"]))
    kind = ("levels", "combinations", "overflow")[ctx.index % 3]
    N = int(r.choice([300, 700]))
    if kind == "levels":                         # up to several hundred levels
        k = int(r.choice([100, 150, 270, 600]))
        X = np.column_stack([r.integers(k, size=N), r.integers(3, size=N), r.integers(2, size=N), r.integers(k, size=N) // 3])
        qs = [(0, 1, []), (0, 1, [2]), (1, 2, [0]), (0, 3, [2]), (1, 2, [0, 3])]
    else:
        n, lev = (int(r.integers(9, 15)), 40) if kind == "combinations" else (int(r.integers(30, 45)), int(r.choice([4, 16])))
        X = np.zeros((N, n), dtype=int)
        for j in range(n):                       # mostly constant, so that the strata stay populated
            X[:lev, j] = r.permutation(lev)
            X[lev:, j] = int(r.integers(lev))
        for j in r.permutation(n)[:3]:
            X[lev:, j] = r.integers(2, size=N - lev)
        z = X[:, int(r.integers(2))] % 2
        for j in (n - 2, n - 1):
            X[:, j] = (z + (r.random(N) < .2)) % 2
        qs = [(n - 2, n - 1, list(range(n - 2))), (n - 1, n - 2, [int(v) for v in r.permutation(n - 2)[:n - 4]])]
    t = CIT(X, meth)
    for x, y, S in qs:
        want = strat_p(X, x, y, S, meth == "gsq")
        try:
            ok, p = ctx.call(meth, t, x, y, S)
        except MemoryError:                      # the tables of the strata that occur are tiny
            ok, p = False, "MemoryError"
        ctx.event("p_values")
        ctx.check(ok and close(p, want), f"{meth}/value", lambda: f"{kind}: N={N} levels={[len(set(c)) for c in X.T]} {(x, y, S)}: p={p}, should be {want}")
        ctx.state(kind, meth, round(float(want), 9))
    ctx.event(kind)


def missing(ctx):
    """fisher-z with test-wise deletion"""
    r = ctx.rng
    n = int(r.integers(2, 7))
    N = int(r.choice([40, 120, 400]))
    X, _ = gen.sem_linear(r, n, gen.rand_dag(r, n), N)
    M = r.random((N, n)) < r.uniform(0, .3, n)
    if r.random() < .3:
        M[:, int(r.integers(n))] = False
    X = X.copy()
    X[M] = np.nan
    t = CIT(X, "mv_fisherz")
    keep = X.copy()
    ctx.note({"n": n, "N": N, "missing": float(M.mean())})
    got = []
    for x, y, S in queries(ctx, n, 6):
        rows = ~np.isnan(X[:, [x, y] + S]).any(1)
        if rows.sum() <= len(S) + 5:
            continue
        Z = X[rows]
        want = pcor_p(Z, x, y, S)
        for q in forms(ctx, x, y, S):
            ctx.event("p_values")
            if rows.sum() < N:
                ctx.event("rows_dropped")
            ctx.check(close(t(*q), want), "mv_fisherz/value", f"{q}: p={t(*q)}, should be {want} on {rows.sum()} complete rows")
        got.append(round(want, 9))
    ctx.check(np.array_equal(X, keep, equal_nan=True), "mv_fisherz/data-changed")
    for m in ("fisherz", "kci"):
        if M.any():
            try:
                CIT(X, m)
                ctx.fail("nan-accepted", f"{m} accepted data with missing values")
            except AssertionError:
                ctx.event("nan_refused")
    if got:
        ctx.state(got)


def dsep(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    E = gen.rand_dag(r, n)
    g = nx.DiGraph()
    g.add_nodes_from(range(n))
    g.add_edges_from(E)
    t = CIT(np.zeros((3, n)), "d_separation", true_dag=g)
    ctx.note({"E": sorted(E)})
    for x, y, S in queries(ctx, n, 10):
        want = 1.0 if ref.dsep(n, E, x, y, set(S)) else 0.0
        for q in forms(ctx, x, y, S):
            ctx.event("indep" if want else "dep")
            ctx.check(t(*q) == want, "dsep/value", f"{sorted(E)} {q}")
    ctx.state(sorted(E))


STREAMS = {
    "fisher": Stream(fisher, 500, 15000, need=["p_values", "invariance", "mixed_scales"]),
    "contingency": Stream(contingency, 500, 12000, need=["p_values", "sparse_path", "stratified", "chisq", "gsq", "constant_column", "coding:str"]),
    "wide": Stream(wide, 90, 1500, need=["levels", "combinations", "overflow"]),
    "missing": Stream(missing, 200, 6000, need=["p_values", "rows_dropped", "nan_refused"]),
    "dsep": Stream(dsep, 150, 4000, need=["indep", "dep"]),
}
