"""Local scores equal their definitions."""
import math
from collections import Counter

import numpy as np
from scipy.optimize import minimize_scalar

from causallearn.score.LocalScoreFunction import (local_score_BDeu, local_score_BIC, local_score_BIC_from_cov, local_score_cv_general,
                                                  local_score_cv_multi, local_score_marginal_general, local_score_marginal_multi)
from causallearn.score.LocalScoreFunctionClass import LocalScoreClass

from .. import gen
from ..core import Stream

ID = "S01"
RULE = ("a case = one data set and several (variable, parents) questions to one score, directly and through the caching class; "
        "distinct by score, parents and value")
ASSUMPTIONS = ["closed-form references for BIC, BDeu and the cross-validated likelihood", "the marginal likelihood is judged at the stationary points of the noise level (the only "
               "hyperparameter the library learns)"]


def val(s):
    a = np.asarray(s, float)
    return float(a.reshape(-1)[0]) if a.size == 1 else float("nan")


def forms(r, P):
    P = [P[int(i)] for i in r.permutation(len(P))]
    k = int(r.integers(4))
    return P if k < 2 else tuple(P) if k == 2 else [np.int64(p) for p in P]


def pick(r, n, top=4):
    i = int(r.integers(n))
    o = [v for v in range(n) if v != i]
    k = int(r.integers(0, min(top, n - 1) + 1))
    return i, [o[int(j)] for j in r.permutation(n - 1)[:k]]


def through_class(ctx, fun, X, par, asks, tol=1e-9):
    """the caching class answers what the function answers, in any order and any number of times"""
    r = ctx.rng
    c = LocalScoreClass(data=X, local_score_fun=fun, parameters=par)
    seq = [asks[int(k)] for k in r.integers(0, len(asks), 2 * len(asks))] + list(asks)
    for i, P, want in seq:
        got = val(c.score(i, forms(r, P)))
        ctx.event("class_answers")
        ctx.check(abs(got - want) <= tol * (1 + abs(want)), f"{fun.__name__}/class", lambda: f"score({i}, {P}) = {got} after other questions, should be {want}")
        if r.random() < .2:
            got = val(c.score_nocache(i, forms(r, P)))
            ctx.check(abs(got - want) <= tol * (1 + abs(want)), f"{fun.__name__}/nocache", lambda: f"{got}, should be {want}")


def bic(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    N = int(r.choice([n + 3, 20, 60, 300]))
    E = gen.rand_dag(r, n)
    sets = []
    if ctx.index % 12 == 5:                      # many variables, and parent sets that look alike when numbered carelessly
        n, N = 70, 120
        E = gen.sparse_dag(r, n)
        a, s = int(r.integers(2, 6)), int(r.choice([8, 16, 24, 32, 48, 64]))
        i = 69
        sets = [(i, P) for P in ([a], [a + s], [1, 23], [12, 3], [1, 2, 3], [a, a + 60], [a, a + 60 - s % 60], [61, 2], [6, 12])]
        sets = [sets[int(k)] for k in r.permutation(len(sets))]
        ctx.event("wide")
    X, _ = gen.sem_linear(r, n, E, N, noise=str(r.choice(["gauss", "uniform"])))
    if r.random() < .5:
        X = X * 10 ** r.uniform(-2, 2, n) + r.normal(size=n) * 10
    lam = float(r.choice([.5, 1, 2, 7]))
    par = None if r.random() < .4 else {"lambda_value": lam}
    lam = 1 if par is None else lam
    X0 = X.copy()
    cov = np.cov(X.T)
    asks = []
    for q in range(max(8, len(sets))):
        i, P = sets[q] if sets else pick(r, n)
        A = np.column_stack([np.ones(N)] + [(X[:, p] - X[:, p].mean()) / X[:, p].std() for p in P])
        y = X[:, i]
        rss = ((y - A @ np.linalg.lstsq(A, y, rcond=None)[0]) ** 2).sum()
        want = N * math.log(rss / (N - 1)) + math.log(N) * len(P) * lam
        for name, f, d in (("data", local_score_BIC, X), ("cov", local_score_BIC_from_cov, (cov, N))):
            got = val(f(d, i, forms(r, P), par))
            ctx.event("scores")
            ctx.check(abs(got - want) < 1e-6 * (1 + abs(want)), f"bic-{name}/value", lambda: f"n={N} i={i} PA={P} lambda={lam}: {got}, should be {want}")
        asks.append((i, P, want))
        ctx.state(i, sorted(P), round(want, 6))
    through_class(ctx, [local_score_BIC, local_score_BIC_from_cov][ctx.index % 2], X, par, asks, 1e-6)
    ctx.check(np.array_equal(X, X0), "bic/mutated")
    ctx.note({"n": n, "N": N, "asks": asks[:2], "parameters": par})


def bdeu_ref(X, i, P, ess, sp, rmap):
    N = len(X)
    q = 1
    for p in P:
        q *= rmap[p]
    nij, nijk = Counter(), Counter()
    for row in X.tolist():
        k = tuple(row[p] for p in P)
        nij[k] += 1
        nijk[k, row[i]] += 1
    vm = N - 1
    s = len(P) * math.log(sp / vm) + (vm - len(P)) * math.log(1 - sp / vm)
    for c in nij.values():
        s += math.lgamma(ess / q) - math.lgamma(c + ess / q)
    for c in nijk.values():
        s += math.lgamma(c + ess / (rmap[i] * q)) - math.lgamma(ess / (rmap[i] * q))
    return -s


def bdeu(ctx):
    r = ctx.rng
    n = int(r.integers(2, 6))
    N = int(r.choice([6, 25, 120]))
    lev = [int(v) for v in r.choice([1, 2, 2, 3, 4], n)]
    E = gen.rand_dag(r, n)
    X = np.zeros((N, n), int)
    for t in range(N):
        for v in range(n):
            X[t, v] = (r.integers(lev[v]) + (X[t, v - 1] if r.random() < .6 and v else 0)) % lev[v]
    kind = str(r.choice(["plain", "codes", "float", "negative"]))
    if kind != "plain":
        X = np.column_stack([np.array(sorted(r.choice(np.arange(-9, 40) if kind == "negative" else np.arange(1, 60), lev[v], replace=False)))[X[:, v]] for v in range(n)])
    if kind == "float":
        X = X / 4.0
    card = {v: len(np.unique(X[:, v])) for v in range(n)}
    par = None
    ess = sp = 1
    if r.random() < .6:
        ess, sp = float(r.choice([.5, 1, 3, 10])), float(r.choice([.2, 1, 2]))
        card = {v: card[v] + int(r.integers(0, 2)) for v in range(n)}     # levels that were not sampled
        par = {"sample_prior": ess, "structure_prior": sp, "r_i_map": dict(card)}
        ctx.event("parameters")
    X0 = X.copy()
    asks = []
    for _ in range(5):
        i, P = pick(r, n, 3)
        want = bdeu_ref(X, i, P, ess, sp, card)
        got = val(local_score_BDeu(X, i, forms(r, P), par))
        ctx.event("scores")
        ctx.check(abs(got - want) < 1e-7 * (1 + abs(want)), "bdeu/value", lambda: f"N={N} {kind} i={i} PA={P} {par}: {got}, should be {want}")
        asks.append((i, P, want))
        ctx.state(i, sorted(P), round(want, 6))
    through_class(ctx, local_score_BDeu, X, par, asks, 1e-7)
    ctx.check(np.array_equal(X, X0), "bdeu/mutated")
    ctx.note({"N": N, "levels": lev, "kind": kind, "parameters": par})


# --- generalized scores --------------------------------------------------------------------------------------------

def _sq(A):
    return ((A[:, None, :] - A[None, :, :]) ** 2).sum(-1)


def med_width(A):
    d = _sq(A)[np.triu_indices(len(A), 1)]
    return math.sqrt(.5 * np.median(d[d > 1e-13]))


def rbf(A, w, dim=1):
    return np.exp(-_sq(A) / (2 * w * w * dim))


def ctr(K):
    H = np.eye(len(K)) - 1 / len(K)
    return H @ K @ H


def cv_ref(X, PA, k, lam, f, bydim):
    """negative k-fold cross-validated likelihood of kernel regression (Huang et al. 2018); f = width factor"""
    T, g = len(X), .01
    Kx = ctr(rbf(X, f * med_width(X), X.shape[1] if bydim else 1))
    Kp = None
    if PA:
        Kp = np.ones((T, T))
        for P in PA:
            Kp = Kp * rbf(P, f * med_width(P), P.shape[1] if bydim else 1)
        Kp = ctr(Kp)
    n0, tot = T // k, 0.0
    for q in range(k):
        te = np.arange(q * n0, T if q == k - 1 else (q + 1) * n0)
        tr = np.setdiff1d(np.arange(T), te)
        nv, n1 = len(te), len(tr)
        if Kp is None:
            R = Kx[np.ix_(tr, tr)]
            c = 1 / (g * n1)
            A = Kx[np.ix_(te, te)] - c * Kx[np.ix_(te, tr)] @ np.linalg.solve(np.eye(n1) + c * R, Kx[np.ix_(tr, te)])
            ld = .5 * np.linalg.slogdet(np.eye(n1) + c * R)[1]
        else:
            M = np.linalg.inv(Kp[np.ix_(tr, tr)] + n1 * lam * np.eye(n1))
            W = M @ Kp[np.ix_(tr, te)]                     # regression weights of the test points
            Q = Kx[np.ix_(tr, tr)]
            S = M @ Q @ M
            c = n1 * lam ** 2 / g
            V = M @ np.linalg.inv(np.eye(n1) + c * S) @ M  # residual covariance correction
            U = Kx[np.ix_(tr, te)] - Q @ W                 # cross products with the residuals of the test points
            A = Kx[np.ix_(te, te)] - 2 * Kx[np.ix_(te, tr)] @ W + W.T @ Q @ W - c * U.T @ V @ U
            ld = .5 * np.linalg.slogdet(np.eye(n1) + c * S)[1]
        tot += (nv * nv * math.log(2 * math.pi) + nv * ld + np.trace(A) / g) / 2
    return tot / k


def kdata(r, N, groups):
    """nonlinear data for len(groups) variables of the given dimensions"""
    cols, base = [], r.normal(size=(N, 1))
    for d in groups:
        b = base if r.random() < .6 else r.normal(size=(N, 1))
        V = np.column_stack([r.choice([-1, 1]) * f(b[:, 0] * r.uniform(.5, 1.5)) + .4 * r.normal(size=N) for f in
                             [[np.sin, np.tanh, np.square, lambda t: t][int(j)] for j in r.integers(0, 4, d)]])
        cols.append(V)
        base = V[:, :1]
    X = np.column_stack(cols)
    if r.random() < .3:
        X = X * 10 ** r.uniform(-1, 1, X.shape[1])
    return X


def layout(r, multi):
    m = int(r.integers(2, 5))
    dims = [int(r.integers(1, 4)) if multi else 1 for _ in range(m)]
    return dims


def dlabels(r, dims):
    """which columns belong to which variable, in shuffled columns"""
    o = [int(v) for v in r.permutation(sum(dims))]
    out, k = {}, 0
    for v, d in enumerate(dims):
        c = o[k:k + d]
        k += d
        out[v] = c[0] if d == 1 and r.random() < .5 else c if r.random() < .7 else np.array(c)
    return out


def kernel_case(ctx, kind):
    r = ctx.rng
    multi = kind.endswith("multi")
    dims = layout(r, multi)
    N = int(r.choice([24, 40, 61]))
    X = kdata(r, N, dims)
    par = {}
    if multi:
        par["dlabel"] = dlabels(r, dims)
    else:
        par_cols = None
    if kind.startswith("cv"):
        par.update(kfold=int(r.choice([2, 3, 5, 10])), **{"lambda": float(r.choice([.001, .01, .1]))})
    fun = {"cv_general": local_score_cv_general, "cv_multi": local_score_cv_multi, "marginal_general": local_score_marginal_general,
           "marginal_multi": local_score_marginal_multi}[kind]

    def col(v):
        c = par["dlabel"][v] if multi else v
        return X[:, np.atleast_1d(c)]

    X0, asks = X.copy(), []
    for _ in range(2):
        i, P = pick(r, len(dims), 3)
        got = val(fun(X, i, list(P), par or None))
        ctx.event("scores")
        ctx.event("parents:%d" % len(P))
        if any(np.size(par["dlabel"][v]) > 1 for v in P + [i]) if multi else False:
            ctx.event("multi_dimensional")
        if kind.startswith("cv"):
            want = cv_ref(col(i), [col(p) for p in P], par["kfold"], par["lambda"], 3 if multi else 2, multi)
            ctx.check(abs(got - want) < 1e-6 * (1 + abs(want)), f"{kind}/value", lambda: f"N={N} dims={dims} i={i} PA={P} {par}: {got}, should be {want}")
        else:
            start, mins = marginal_ref(col(i), [col(p) for p in P], multi)
            ok = got <= start + 1e-6 * (1 + abs(start)) and any(abs(got - m) < 2e-4 * (1 + abs(m)) for m in mins)
            want = got
            ctx.check(ok, f"{kind}/value", lambda: f"N={N} dims={dims} i={i} PA={P}: {got}; start {start}, local minima over the noise level {mins}")
        asks.append((i, P, want))
        ctx.state(kind, i, sorted(P), round(got, 6))
    through_class(ctx, fun, X, par or None, asks, 1e-6)
    ctx.check(np.array_equal(X, X0), f"{kind}/mutated")
    ctx.note({"score": kind, "N": N, "dims": dims, "asks": asks})


def marginal_ref(X, PA, multi):
    """(value at the initial hyperparameters, values at the local minima over the noise level)"""
    T = len(X)
    Kx = ctr(rbf(X, 2.5 * med_width(X)))
    w, v = np.linalg.eigh((Kx + Kx.T) / 2)
    w, v = w[::-1][:min(400, T // 4)], v[:, ::-1][:, :min(400, T // 4)]
    k = w > w.max() * 1e-5
    w, v = w[k], v[:, k]
    y = 2 * math.sqrt(T) * v * np.sqrt(w) / math.sqrt(w[0])
    if PA:
        Z = np.column_stack([P / (2.5 * med_width(P)) for P in PA])
        K = np.exp(-_sq(Z) / 2)
    else:
        K = np.ones((T, T))
    d, U = np.linalg.eigh(K)
    d = np.maximum(d, 0)
    y2 = ((U.T @ y) ** 2).sum(1)
    m = y.shape[1]

    def f(ln):
        e = d + math.exp(2 * ln)
        return .5 * (y2 / e).sum() + .5 * m * np.log(e).sum() + .5 * m * T * math.log(2 * math.pi)

    G = np.linspace(-9, 6, 1501)
    F = np.array([f(g) for g in G])
    mins = [minimize_scalar(f, bracket=(G[j - 1], G[j], G[j + 1])).fun for j in range(1, len(G) - 1) if F[j] <= F[j - 1] and F[j] <= F[j + 1]]
    return f(math.log(math.sqrt(.1))), mins


STREAMS = {
    "bic": Stream(bic, 400, 20000, need=["scores", "class_answers"]),
    "bdeu": Stream(bdeu, 160, 4000, need=["scores", "class_answers", "parameters"]),
    "cv_general": Stream(lambda c: kernel_case(c, "cv_general"), 60, 2000, need=["parents:0", "parents:1", "parents:2"]),
    "cv_multi": Stream(lambda c: kernel_case(c, "cv_multi"), 60, 2000, need=["parents:0", "parents:1", "parents:2", "multi_dimensional"]),
    "marginal_general": Stream(lambda c: kernel_case(c, "marginal_general"), 48, 1000, need=["parents:0", "parents:1", "parents:2"], timeout=120),
    "marginal_multi": Stream(lambda c: kernel_case(c, "marginal_multi"), 48, 1000, need=["parents:0", "parents:1", "parents:2", "multi_dimensional"], timeout=120),
}
