"""Reference models for the LiNGAM family: definitions written out directly."""
import itertools

import numpy as np
from sklearn.linear_model import LassoLarsIC


def ols(X, P, t):
    A = np.column_stack([np.ones(len(X))] + [X[:, p] for p in P])
    return np.linalg.lstsq(A, X[:, t], rcond=None)[0][1:]


def adaptive_lasso(X, P, t):
    """weights = |OLS coefficients|, BIC-selected LARS path on the weighted predictors"""
    w = np.abs(ols(X, P, t))
    return LassoLarsIC(criterion="bic").fit(X[:, P] * w, X[:, t]).coef_ * w


def _H(u):
    return (1 + np.log(2 * np.pi)) / 2 - 79.047 * (np.mean(np.log(np.cosh(u))) - .37457) ** 2 - 7.4129 * (np.mean(u * np.exp(-u * u / 2))) ** 2


def _st(v):
    return (v - v.mean()) / v.std()


def _res(a, b, dd):
    return a - np.cov(a, b, ddof=dd)[0, 1] / np.var(b) * b


def pairwise_scores(X, U, C=None, dd=0):
    """for each candidate: sum over the others of min(0, entropy difference)^2 (0 = most exogenous)"""
    out = {}
    S = {i: _st(X[:, i]) for i in U}
    for i in (C if C is not None else U):
        m = 0
        for j in U:
            if j != i:
                rij, rji = _res(S[i], S[j], dd), _res(S[j], S[i], dd)
                m += min(0, _H(S[j]) + _H(rij / rij.std()) - _H(S[i]) - _H(rji / rji.std())) ** 2
        out[i] = m
    return out


def _mi(a, b, k, s):
    n = len(a)
    K1 = np.exp(-(a[:, None] - a[None]) ** 2 / (2 * s * s))
    K2 = np.exp(-(b[:, None] - b[None]) ** 2 / (2 * s * s))
    t1, t2 = K1 + n * k / 2 * np.eye(n), K2 + n * k / 2 * np.eye(n)
    A = np.block([[t1 @ t1, K1 @ K2], [K2 @ K1, t2 @ t2]])
    return -.5 * (np.linalg.slogdet(A)[1] - np.linalg.slogdet(t1 @ t1)[1] - np.linalg.slogdet(t2 @ t2)[1])


def kernel_scores(X, U, C=None, dd=0):
    k, s = (2e-3, .5) if len(X) > 1000 else (2e-2, 1.0)
    out = {}
    for j in (C if C is not None else U):
        out[j] = sum(_mi(X[:, j], _res(X[:, i], X[:, j], dd), k, s) for i in U if i != j)
    return out


def remove(X, U, m, dd=0):
    X = X.copy()
    for i in U:
        if i != m:
            X[:, i] = _res(X[:, i], X[:, m], dd)
    return X


def order_faults(X, order, kernel=False, allowed=None, tol=.02):
    """positions at which the chosen variable is not the most independent one under either normalisation"""
    n = X.shape[1]
    alive = {0: X.astype(float), 1: X.astype(float)}
    if kernel:
        alive = {d: (A - A.mean(0)) / A.std(0) for d, A in alive.items()}
    U, bad = list(range(n)), []
    for pos, m in enumerate(order):
        C = U if allowed is None else [c for c in U if allowed(c, U)]
        ok = len(U) == 1 or C == [m]
        if not ok and m in C:
            for dd in (0, 1):
                sc = (kernel_scores if kernel else pairwise_scores)(alive[dd], U, C, dd)
                best = min(sc.values())
                if sc[m] <= best + tol * abs(best) + 1e-9:
                    ok = True
                    break
        if not ok:
            bad.append((pos, m))
        for dd in alive:
            alive[dd] = remove(alive[dd], U, m, dd)
        U = [u for u in U if u != m]
    return bad


def total_effects(B):
    return np.linalg.inv(np.eye(len(B)) - B)


def paths(B, a, b, thr=0.0):
    """all directed paths a -> b over entries with |B[to, from]| > thr, with the product of coefficients"""
    n = len(B)
    M = np.abs(np.nan_to_num(B)) > thr
    out = []

    def go(p):
        if p[-1] == b:
            out.append((tuple(p), float(np.prod([B[p[k + 1], p[k]] for k in range(len(p) - 1)]))))
            return
        for t in range(n):
            if M[t, p[-1]] and t not in p:
                go(p + [t])

    go([a])
    return out


def triangular(B, order):
    """no entry from a variable to itself or to one that comes earlier"""
    pos = {v: k for k, v in enumerate(order)}
    return all(B[i, j] == 0 or pos[j] < pos[i] for i, j in itertools.product(range(len(B)), repeat=2))
