"""Granger causality: the p-values are those of the nested-regression tests, the lasso coefficients those of the lagged regression."""
import itertools
import warnings

import numpy as np
from scipy import stats
from sklearn.linear_model import LassoCV

from causallearn.search.Granger.Granger import Granger

from ..core import Stream

ID = "T04"
RULE = "a case = one multivariate time series, lag length and test; non-trivial when a p-value or coefficient is neither 0 nor 1; distinct by result"
ASSUMPTIONS = ["p-values are reported to four decimals; verdicts within 1e-4 of the level are left open", "the lasso itself is scikit-learn's LassoCV"]


def series(r, d, L, T, lo=.3, hi=.5, p=.4, scale=None):
    A = np.zeros((L, d, d))
    for k, i, j in itertools.product(range(L), range(d), range(d)):
        if r.random() < p:
            A[k, i, j] = r.uniform(lo, hi) * r.choice([-1, 1])
    # stable
    comp = np.zeros((d * L, d * L))
    comp[:d] = np.hstack(list(A))
    comp[d:, :-d] = np.eye(d * (L - 1)) if L > 1 else comp[d:, :-d]
    rho = max(abs(np.linalg.eigvals(comp))) if L else 0
    if rho > .9:
        A *= np.array([(.9 / rho) ** (k + 1) for k in range(L)])[:, None, None]
    X = np.zeros((T + 50, d))
    for t in range(T + 50):
        X[t] = sum((A[k] @ X[t - k - 1] for k in range(L) if t > k), np.zeros(d)) + r.normal(size=d)
    X = X[50:]
    if scale is None:
        scale = r.random() < .5
    return A, X * (np.exp(r.uniform(-1, 1, d)) if scale else 1) + (r.normal(size=d) if scale else 0)


def lags(X, L, cols):
    """rows t = L.., columns x_c[t-1..t-L] for each c"""
    return np.column_stack([X[L - k:len(X) - k, c] for c in cols for k in range(1, L + 1)])


def rss(A, y):
    A = np.column_stack([np.ones(len(y)), A])
    e = y - A @ np.linalg.lstsq(A, y, rcond=None)[0]
    return e @ e, len(y) - A.shape[1]


def granger_p(X, to, frm, L, test):
    y = X[L:, to]
    r0, _ = rss(lags(X, L, [to]), y)
    r1, df = rss(lags(X, L, [to, frm]), y)
    if test in ("ssr_ftest", "params_ftest"):
        return stats.f.sf((r0 - r1) / r1 / L * df, L, df)
    if test == "ssr_chi2test":
        return stats.chi2.sf(len(y) * (r0 - r1) / r1, L)
    return stats.chi2.sf(len(y) * np.log(r0 / r1), L)


def pairwise(ctx):
    r = ctx.rng
    L = int(r.integers(1, 5))
    T = int(r.choice([30, 60, 150, 400]))
    A, X = series(r, 2, int(r.integers(1, 3)), T)
    test = str(r.choice(["ssr_ftest", "ssr_ftest", "ssr_chi2test", "lrtest", "params_ftest"]))
    lev = float(r.choice([.01, .05, .1, .5]))
    arg = {"maxlag": L, "test": test, "significance_level": lev}
    if r.random() < .2:
        arg, L, test, lev = {}, 2, "ssr_ftest", .01
    X0 = X.copy()
    m = Granger(**arg)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, g = ctx.call("granger_test_2d", m.granger_test_2d, X)
        if not ok:
            return
        P, Adj = (np.asarray(a) for a in g)
        ctx.note({"T": T, "maxlag": L, "test": test, "level": lev, "p": P.tolist()})
        ctx.check(np.array_equal(X, X0), "pairwise/data-changed")
        if not ctx.check(P.shape == (2, 2 * L) and Adj.shape == (2, 2 * L), "pairwise/shape", lambda: f"{P.shape} {Adj.shape} for {L} lags"):
            return
        ctx.event("test:" + test)
        ctx.state(test, L, P.tolist())
        for k in range(L):
            for to, frm in ((0, 1), (1, 0)):
                want = granger_p(X, to, frm, k + 1, test)
                ctx.event("p_values")
                ctx.check(abs(P[to, frm + 2 * k] - want) < 1.01e-4, "pairwise/p-value", lambda: f"{frm}->{to} with {k + 1} lags, {test}: {P[to, frm + 2 * k]}, should be {want}")
                if abs(want - lev) > 2e-4:
                    ctx.event("verdicts")
                    ctx.check(Adj[to, frm + 2 * k] == (want < lev), "pairwise/verdict", lambda: f"{frm}->{to} with {k + 1} lags, p {want}, level {lev}: {Adj[to, frm + 2 * k]}")
        # changing the columns changes the roles
        Q, B = (np.asarray(a) for a in m.granger_test_2d(X[:, ::-1].copy()))
        sw = [c ^ 1 if True else c for c in range(2 * L)]
        ctx.event("swapped")
        ctx.check(np.allclose(Q[::-1][:, sw], P, atol=1.01e-4), "pairwise/swapped", lambda: f"{P.tolist()} swapped {Q.tolist()}")


def pair_truth(ctx):
    r = ctx.rng
    T = 400
    X = np.zeros((T, 2))
    k = int(r.integers(1, 3))
    a = r.uniform(.6, .9) * r.choice([-1, 1])
    i = int(r.integers(2))
    for t in range(T):
        X[t] = r.normal(size=2)
        if t >= k:
            X[t, 1 - i] += a * X[t - k, i]
        if t >= 1:
            X[t] += .3 * X[t - 1]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, g = ctx.call("granger_test_2d", Granger(maxlag=2, significance_level=1e-3).granger_test_2d, X)
    if not ok:
        return
    P, A = (np.asarray(v) for v in g)
    ctx.event("truth")
    ctx.state(round(a, 6), k, i)
    # the lag-2 model contains the true one
    ctx.check(A[1 - i, i + 2] == 1, "pairwise/missed", lambda: f"{i}->{1 - i} lag {k} coefficient {a}: p {P.tolist()}")
    ctx.check(P[i, 1 - i + 2] >= 0, "pairwise/negative")


def lasso(ctx):
    r = ctx.rng
    d, L = int(r.integers(2, 5)), int(r.integers(1, 4))
    T = int(r.choice([40, 80, 200]))
    A, X = series(r, d, int(r.integers(1, 3)), T)
    cv = int(r.integers(2, 6))
    arg = {"maxlag": L, "cv": cv}
    if r.random() < .2:
        arg, L, cv = {}, 2, 5
    X0 = X.copy()
    m = Granger(**arg)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, C = ctx.call("granger_lasso", m.granger_lasso, X)
        if not ok:
            return
        C = np.asarray(C)
        ctx.check(np.array_equal(X, X0), "lasso/data-changed")
        if not ctx.check(C.shape == (d, d * L), "lasso/shape", lambda: f"{C.shape} for {d} variables, {L} lags"):
            return
        Z = np.column_stack([X[L - k:T - k, j] for k in range(1, L + 1) for j in range(d)])
        ctx.event("lasso")
        ctx.state(d, L, np.round(C, 6).tolist())
        for i in range(d):
            want = LassoCV(cv=cv).fit(Z, X[L:, i]).coef_
            ctx.event("rows")
            ctx.check(np.allclose(C[i], want, atol=1e-6 * (1 + abs(want).max())), "lasso/coefficients", lambda: f"row {i}: {C[i].tolist()}, should be {want.tolist()}")


def lasso_truth(ctx):
    r = ctx.rng
    d, L = int(r.integers(2, 4)), int(r.integers(1, 4))
    A, X = series(r, d, L, 3000, scale=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, C = ctx.call("granger_lasso", Granger(maxlag=L).granger_lasso, X)
    if not ok:
        return
    want = np.hstack(list(A))
    ctx.event("lasso_truth")
    ctx.state(np.round(want, 4).tolist())
    C = np.asarray(C)
    ctx.check(C.shape == want.shape and np.abs(C - want).max() < .15, "lasso/truth", lambda: f"{C.round(2).tolist()} true {want.round(2).tolist()}")


def dims(ctx):
    r = ctx.rng
    X = r.normal(size=(40, int(r.choice([1, 3, 4]))))
    try:
        Granger().granger_test_2d(X)
        ctx.fail("pairwise/accepts-other-dimensions", f"{X.shape}")
    except Exception:  # noqa
        ctx.event("refused")
        ctx.state(X.shape[1])


STREAMS = {
    "pairwise": Stream(pairwise, 250, 6000, need=["test:ssr_ftest", "test:ssr_chi2test", "test:lrtest", "test:params_ftest", "verdicts", "swapped"]),
    "pair_truth": Stream(pair_truth, 80, 1500, need=["truth"]),
    "lasso": Stream(lasso, 120, 3000, need=["lasso", "rows"], timeout=60),
    "lasso_truth": Stream(lasso_truth, 40, 800, need=["lasso_truth"], timeout=60),
    "dims": Stream(dims, 9, 20, need=["refused"]),
}
