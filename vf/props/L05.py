"""Time-series and multi-group LiNGAM: lag coefficients, residuals and effects follow their definitions and the truth."""
import warnings

import numpy as np
from sklearn.linear_model import LassoLarsIC

from causallearn.search.FCMBased import lingam

from .. import gen
from .. import lingam_ref as R
from ..core import Stream

ID = "L05"
RULE = ("a case = one time series, panel or group of data sets fitted (again, by fresh and used models); non-trivial when the truth has an effect; distinct by the fitted matrices")
ASSUMPTIONS = ["the reference is written from the model equations; the estimator of the innovations (least squares) and of the instantaneous part (LiNGAM on the residuals) are those of the papers",
               "effects that use wrapped-around rows are compared within a tolerance that covers those rows", "VARMA likelihood fits are few: one takes seconds"]


def noise(r, N, n):
    k = r.integers(2)
    e = r.uniform(-1.7, 1.7, (N, n)) if k == 0 else (r.exponential(1.0, (N, n)) - 1)
    return e * r.uniform(.6, 1.4, n)


def simulate_var(r, n, lags, N, strong=False):
    """x_t = B0 x_t + sum_k B_k x_{t-k} + e_t; stable"""
    E = gen.rand_dag(r, n)
    while True:
        B0 = np.zeros((n, n))
        for a, b in E:
            B0[b, a] = r.choice([-1, 1]) * r.uniform(.6, 1.2)
        Bk = []
        for q in range(lags):
            M = np.where(r.random((n, n)) < .6, r.choice([-1, 1], (n, n)) * r.uniform(.3, .6, (n, n)), 0)
            Bk.append(M)
        inv = np.linalg.inv(np.eye(n) - B0)
        A = [inv @ b for b in Bk]
        C = np.zeros((n * lags, n * lags))
        C[:n] = np.hstack(A)
        C[n:, :-n] = np.eye(n * (lags - 1)) if lags > 1 else C[n:, :-n]
        if max(abs(np.linalg.eigvals(C))) < .85:
            break
    e = noise(r, N + 100, n)
    X = np.zeros((N + 100, n))
    for t in range(N + 100):
        X[t] = inv @ e[t]
        for q in range(lags):
            if t - q - 1 >= 0:
                X[t] += A[q] @ X[t - q - 1]
    return X[100:], E, B0, Bk, A


def lagged(X, lags):
    return np.hstack([X[lags - q - 1:len(X) - q - 1] for q in range(lags)])


def var_ols(X, lags):
    Z, Y = lagged(X, lags), X[lags:]
    C = np.linalg.lstsq(Z, Y, rcond=None)[0].T
    n = X.shape[1]
    return np.array([C[:, n * q:n * (q + 1)] for q in range(lags)]), Y - Z @ C.T


def criterion(X, lags, name):
    """information criterion of a VAR without constant, from its definition on its own sample"""
    A, res = var_ols(X, lags)
    n, T = X.shape[1], len(res)
    S = res.T @ res / T
    k = lags * n * n
    ld = np.linalg.slogdet(S)[1]
    if name == "aic":
        return ld + 2 * k / T
    if name == "bic":
        return ld + np.log(T) * k / T
    if name == "hqic":
        return ld + 2 * np.log(np.log(T)) * k / T
    d = lags * n
    return ((T + d) / (T - d)) ** n * np.exp(ld)


def var_expect(X, A, res, prune):
    n, lags = X.shape[1], len(A)
    m = lingam.DirectLiNGAM().fit(res)
    B0, order = m.adjacency_matrix_, [int(v) for v in m.causal_order_]
    B = [B0] + [(np.eye(n) - B0) @ a for a in A]
    if prune:
        Z, Y = lagged(X, lags), X[lags:]
        B = [np.zeros((n, n)) for _ in range(1 + lags)]
        for i in range(n):
            anc = order[:order.index(i)]
            P = np.hstack([Y[:, anc], Z])
            w = np.abs(R.ols(np.column_stack([P, Y[:, i]]), list(range(P.shape[1])), P.shape[1]))
            c = LassoLarsIC(criterion="bic").fit(P * w, Y[:, i]).coef_ * w
            B[0][i, anc] = c[:len(anc)]
            for q in range(lags):
                B[q + 1][i] = c[len(anc) + n * q:len(anc) + n * (q + 1)]
    return np.array(B), order


def var(ctx):
    r = ctx.rng
    n, true, maxl = int(r.integers(2, 4)), int(r.integers(1, 3)), int(r.integers(1, 4))
    N = int(r.choice([80, 200, 500]))
    X = simulate_var(r, n, true, N)[0]
    Y = simulate_var(r, n, int(r.integers(1, 4)), N)[0]
    crit = [None, "bic", "aic", "hqic", "fpe"][int(r.integers(5))]
    prune = bool(r.random() < .5)
    coefs = None
    if r.random() < .25:
        coefs = var_ols(X, maxl)[0] + .01 * r.normal(size=(maxl, n, n))
    kw = {} if coefs is None else {"ar_coefs": coefs}
    mk = lambda: lingam.VARLiNGAM(lags=maxl, criterion=crit, prune=prune, **kw)
    m = mk()
    ctx.note({"n": n, "true_lags": true, "lags": maxl, "criterion": crit, "prune": prune, "given": coefs is not None})
    for turn, D in enumerate((X, Y, X)):
        D0 = D.copy()
        ok, _ = ctx.call("fit", m.fit, D)
        if not ok:
            return
        ctx.check(np.array_equal(D, D0), "var/data-changed")
        if coefs is not None:
            Z = lagged(D, maxl)
            A, res = coefs, D[maxl:] - Z @ np.hstack(list(coefs)).T
        elif crit is None:
            A, res = var_ols(D, maxl)
        else:
            c = sorted((criterion(D, k, crit), k) for k in range(1, maxl + 1))
            if len(c) > 1 and c[1][0] - c[0][0] < 1e-9 * abs(c[0][0]):
                return ctx.event("criterion_tie")
            A, res = var_ols(D, c[0][1])
            ctx.event("criteria")
            ctx.event("lags:%d" % c[0][1])
        key = "var" if turn == 0 else "var/refit"
        if turn:
            ctx.event("refits")
        got = np.array(m.adjacency_matrices_)
        if not ctx.check(got.shape == (1 + len(A), n, n), key + "/lags", lambda: f"{len(got) - 1} lags, should be {len(A)}"):
            return
        ctx.check(m.residuals_.shape == res.shape and np.allclose(m.residuals_, res, atol=1e-6), key + "/residuals")
        B, order = var_expect(D, A, m.residuals_, prune)
        ctx.event("fits")
        ctx.check([int(v) for v in m.causal_order_] == order, key + "/order", lambda: f"{m.causal_order_}, LiNGAM on the residuals gives {order}")
        ctx.check(np.allclose(got, B, atol=1e-5), key + "/matrices", lambda: f"{got.round(3).tolist()} should be {B.round(3).tolist()}")
    ctx.state(got.round(8).tolist())
    # p-values of the structural residuals
    from .L01 import hsic_gamma_p
    P = m.get_error_independence_p_values()
    e = m.residuals_ @ (np.eye(n) - got[0]).T
    for i in range(n):
        for j in range(i):
            ctx.event("p_values")
            w = hsic_gamma_p(e[:, i], e[:, j])
            ctx.check(abs(P[i, j] - w) < 1e-6 and P[i, j] == P[j, i], "var/p-values", lambda: f"{P[i, j]} should be {w}")


def var_truth(ctx):
    """strong effects, long series: the true lag matrices and total effects are found"""
    r = ctx.rng
    n, lags = int(r.integers(2, 4)), int(r.integers(1, 3))
    X, E, B0, Bk, A = simulate_var(r, n, lags, 6000)
    m = lingam.VARLiNGAM(lags=lags + int(r.integers(0, 2)), criterion="bic", prune=bool(r.random() < .5))
    ok, _ = ctx.call("fit", m.fit, X)
    if not ok:
        return
    got = np.array(m.adjacency_matrices_)
    order = [int(v) for v in m.causal_order_]
    ctx.note({"edges": sorted(E), "lags": lags, "order": order})
    ctx.event("truths")
    if E:
        ctx.state(sorted(E), lags, np.round(B0, 3).tolist())
    ctx.check(all(order.index(a) < order.index(b) for a, b in E), "var/truth/order", lambda: f"{order}, edges {sorted(E)}")
    W = np.array([B0] + Bk)
    if not np.allclose(got[0], 0) or not E:
        k = min(len(got), len(W))
        ctx.check(np.allclose(got[:k], W[:k], atol=.15) and np.allclose(got[k:], 0, atol=.15) and np.allclose(W[k:], 0), "var/truth/matrices",
                  lambda: f"{got.round(2).tolist()} true {W.round(2).tolist()}")
    # total effects: response of x_t to a unit change of x_{t-l} with everything before that held fixed
    inv = np.linalg.inv(np.eye(n) - B0)
    Psi = [np.eye(n)]
    for s in range(1, 4):
        Psi.append(sum(A[q] @ Psi[s - 1 - q] for q in range(min(lags, s))))
    for a in range(n):
        for b in range(n):
            for lag in range(0, 3):
                if lag == 0 and (a == b or order.index(a) > order.index(b)):
                    continue
                want = (Psi[lag] @ inv)[b, a] / 1.0
                e = m.estimate_total_effect(X, a, b, lag) if lag else m.estimate_total_effect(X, a, b)
                ctx.event("total_effects")
                ctx.check(abs(e - want) < .12 * (1 + abs(want)) * max(1, X[:, b].std() / X[:, a].std()), "var/truth/total-effect", lambda: f"{a}->{b} lag {lag}: {e}, true {want}")


# ------------------------------------------------------------------ VARMA
def simulate_varma(r, n, p, q, N):
    X, E, B0, Bk, A = simulate_var(r, n, max(p, 1), 10)
    inv = np.linalg.inv(np.eye(n) - B0)
    Om = [np.where(r.random((n, n)) < .7, r.choice([-1, 1], (n, n)) * r.uniform(.2, .4, (n, n)), 0) for _ in range(q)]
    Th = [inv @ o @ (np.eye(n) - B0) for o in Om]
    e = noise(r, N + 100, n)
    nu = e @ inv.T
    X = np.zeros((N + 100, n))
    for t in range(N + 100):
        X[t] = nu[t]
        for k in range(p):
            if t > k:
                X[t] += A[k] @ X[t - k - 1]
        for k in range(q):
            if t > k:
                X[t] += Th[k] @ nu[t - k - 1]
    return X[100:], nu[100:], E, B0, Bk, Om, A, Th


def varma_given(ctx):
    """with given coefficients: residual recursion, structural matrices, effects"""
    r = ctx.rng
    n, p, q = int(r.integers(2, 4)), int(r.integers(1, 3)), int(r.integers(1, 3))
    N = int(r.choice([100, 300]))
    X, nu, E, B0, Bk, Om, A, Th = simulate_varma(r, n, p, q, N)
    if max(abs(np.linalg.eigvals(companion(Th)))) > .85:
        return ctx.event("not_invertible")
    prune = bool(r.random() < .3)
    m = lingam.VARMALiNGAM(order=(p, q), ar_coefs=np.array(A), ma_coefs=np.array(Th), prune=prune)
    ctx.note({"n": n, "order": (p, q), "prune": prune})
    for turn in range(2):
        np.random.seed(5)
        ok, _ = ctx.call("fit", m.fit, X)
        if not ok:
            return
        psi, om = m.adjacency_matrices_
        res = m.residuals_
        s = max(p, q)
        ctx.check(res.shape == (N - s, n), "varma/residuals-shape", lambda: str(res.shape))
        # the recursion holds from the second block on (its start is random)
        for t in range(s + q, N, 7):
            w = X[t] - sum(A[k] @ X[t - k - 1] for k in range(p)) - sum(Th[k] @ res[t - s - k - 1] for k in range(q))
            ctx.event("residuals")
            if not ctx.check(np.allclose(res[t - s], w, atol=1e-8), "varma/residuals", lambda: f"t={t}: {res[t - s]} should be {w}"):
                break
        lm = lingam.DirectLiNGAM().fit(res)
        order, b0 = [int(v) for v in lm.causal_order_], lm.adjacency_matrix_
        ctx.check([int(v) for v in m.causal_order_] == order, "varma/order")
        I = np.eye(n)
        ctx.event("fits")
        ctx.check(psi.shape == (1 + p, n, n) and om.shape == (q, n, n), "varma/shape", lambda: f"{psi.shape} {om.shape}")
        if not prune:
            ctx.check(np.allclose(psi, [b0] + [(I - b0) @ a for a in A]), "varma/psi", lambda: f"{psi.round(3).tolist()}")
            w = [(I - b0) @ t @ np.linalg.inv(I - b0) for t in Th]
            ctx.check(np.allclose(om, w), "varma/omega", lambda: f"{om.round(3).tolist()} should be {np.round(w, 3).tolist()}")
        else:
            ctx.check(R.triangular(psi[0], order), "varma/not-acyclic")
    ctx.state(psi.round(8).tolist(), om.round(8).tolist())
    if not prune:
        varma_effects(ctx, m, X, nu, n, p, q)


def companion(M):
    n, k = len(M[0]), len(M)
    C = np.zeros((n * k, n * k))
    C[:n] = np.hstack(M)
    if k > 1:
        C[n:, :-n] = np.eye(n * (k - 1))
    return C


def varma_effects(ctx, m, X, E, n, p, q):
    """total effect = lasso coefficient given the parents (present and lagged variables and errors) of the source"""
    psi, om = m.adjacency_matrices_
    order = [int(v) for v in m.causal_order_]
    for lag in range(0, 3):
        cols = {}
        for k in range(p + 1):
            for v in range(n):
                cols[("x", k, v)] = np.roll(X[:, v], k + lag)
        for k in range(q):
            for v in range(n):
                cols[("e", k, v)] = np.roll(E[:, v], k + 1 + lag)
        for a in range(n):
            for b in range(n):
                if lag == 0 and order.index(a) >= order.index(b):
                    continue
                P = [("x", k, v) for k in range(p + 1) for v in range(n) if psi[k][a, v] != 0] + [("e", k, v) for k in range(q) for v in range(n) if om[k][a, v] != 0]
                D = np.column_stack([cols[("x", 0, a)]] + [cols[c] for c in P] + [X[:, b]])
                want = R.adaptive_lasso(D, list(range(len(P) + 1)), len(P) + 1)[0]
                ok, e = ctx.call("estimate_total_effect", m.estimate_total_effect, X, E, a, b, lag)
                if not ok:
                    return
                ctx.event("varma_effects")
                ctx.check(abs(e - want) < .12 * (1 + abs(want)), "varma/total-effect", lambda: f"{a}->{b} lag {lag}: {e}, should be {want}")


def varma_fit(ctx):
    """estimated coefficients: close to the truth, and a used model fits like a fresh one"""
    r = ctx.rng
    X, nu, E, B0, Bk, Om, A, Th = simulate_varma(r, 2, 1, 1, 500)
    Y = simulate_varma(r, 2, 1, 1, 300)[0]
    crit = "bic" if ctx.index % 3 == 0 else None
    m = lingam.VARMALiNGAM(order=(1, 1), criterion=crit, max_iter=60)
    ctx.note({"edges": sorted(E), "criterion": crit})
    out = []
    for D in (X, Y):
        ok, _ = ctx.call("fit", m.fit, D)
        if not ok:
            return
        f = lingam.VARMALiNGAM(order=(1, 1), criterion=crit, max_iter=60).fit(D)
        ctx.event("refits")
        same = all(a.shape == b.shape and np.allclose(a, b) for a, b in zip(m.adjacency_matrices_, f.adjacency_matrices_))
        ctx.check(same and [int(v) for v in m.causal_order_] == [int(v) for v in f.causal_order_], "varma/refit", "a used model fits other data differently than a new one")
        out.append([x.round(6).tolist() for x in f.adjacency_matrices_])
    ctx.state(out)


# ------------------------------------------------------------------ longitudinal
def simulate_long(r, n, T, N, lags=1):
    """T time points, N subjects; different effects at each time"""
    E = gen.rand_dag(r, n)
    B0s, Xs = [], []
    Bl = {}
    for t in range(T):
        B0 = np.zeros((n, n))
        for a, b in E:
            B0[b, a] = r.choice([-1, 1]) * r.uniform(.7, 1.3)
        x = noise(r, N, n)
        for q in range(1, min(lags, t) + 1):
            M = np.where(r.random((n, n)) < .6, r.choice([-1, 1], (n, n)) * r.uniform(.4, .9, (n, n)), 0)
            Bl[t, q] = M
            x = x + Xs[t - q] @ M.T
        Xs.append(x @ np.linalg.inv(np.eye(n) - B0).T)
        B0s.append(B0)
    return Xs, E, B0s, Bl


def longitudinal(ctx):
    r = ctx.rng
    n, T, lags = int(r.integers(2, 4)), int(r.integers(2, 5)), int(r.integers(1, 4))
    big = ctx.index % 3 == 0
    N = 3000 if big else int(r.choice([60, 150]))
    Xs, E, B0s, Bl = simulate_long(r, n, T, N, lags)
    m = lingam.LongitudinalLiNGAM(n_lags=lags)
    keep = [x.copy() for x in Xs]
    ok, _ = ctx.call("fit", m.fit, Xs if r.random() < .5 else np.array(Xs))
    if not ok:
        return
    ctx.check(all(np.array_equal(a, b) for a, b in zip(Xs, keep)), "longitudinal/data-changed")
    A, res, orders = m.adjacency_matrices_, m.residuals_, m.causal_orders_
    ctx.note({"n": n, "T": T, "lags": lags, "N": N})
    ctx.state(np.nan_to_num(A).round(6).tolist())
    ctx.check(A.shape == (T, 1 + lags, n, n), "longitudinal/shape", lambda: str(A.shape))
    if lags > 1 and T > 2:
        ctx.event("early_points")
    ctx.check(np.all(np.isnan(A[0])) and np.all(np.isnan(res[0])), "longitudinal/first-point")
    for t in range(1, T):
        L = min(lags, t)
        Z = np.hstack([np.ones((N, 1))] + [Xs[t - q - 1] for q in range(L)])
        C = np.linalg.lstsq(Z, Xs[t], rcond=None)[0][1:].T
        M = [C[:, n * q:n * (q + 1)] for q in range(L)]
        want = Xs[t] - sum(Xs[t - q - 1] @ M[q].T for q in range(L))
        ctx.event("points")
        ctx.check(np.allclose(res[t], want, atol=1e-6), "longitudinal/residuals", lambda: f"time {t}")
        lm = lingam.DirectLiNGAM().fit(res[t])
        b0 = lm.adjacency_matrix_
        ctx.check([int(v) for v in orders[t]] == [int(v) for v in lm.causal_order_], "longitudinal/order")
        W = [b0] + [(np.eye(n) - b0) @ x for x in M]
        ctx.check(np.allclose(A[t, :1 + L], W, atol=1e-6), "longitudinal/matrices", lambda: f"time {t}: {A[t].round(3).tolist()} should be {np.round(W, 3).tolist()}")
        ctx.check(np.all(np.isnan(A[t, 1 + L:])), "longitudinal/missing-lags", lambda: f"time {t} has effects from before the first time point")
        if big:
            order = [int(v) for v in orders[t]]
            if all(order.index(a) < order.index(b) for a, b in E):
                ctx.event("truths")
                ctx.check(np.allclose(A[t, 0], B0s[t], atol=.25) and all(np.allclose(A[t, q], Bl[t, q], atol=.3) for q in range(1, L + 1)), "longitudinal/truth",
                          lambda: f"time {t}: {A[t, :1 + L].round(2).tolist()} true {[B0s[t].round(2).tolist()] + [Bl[t, q].round(2).tolist() for q in range(1, L + 1)]}")
            else:
                ctx.event("order_missed")
    for _ in range(6):
        ft = int(r.integers(1, T))
        tt = int(r.integers(ft, T))
        a, b = (int(v) for v in r.integers(0, n, 2))
        o = [int(v) for v in orders[ft]]
        if ft == tt and o.index(a) >= o.index(b):
            continue
        P = [(k, v) for k in range(1 + min(lags, ft)) for v in range(n) if np.abs(A[ft, k, a, v]) > 0]
        D = np.column_stack([Xs[ft][:, a]] + [Xs[ft - k][:, v] for k, v in P] + [Xs[tt][:, b]])
        w = R.adaptive_lasso(D, list(range(len(P) + 1)), len(P) + 1)[0]
        ok, e = ctx.call("estimate_total_effect", m.estimate_total_effect, Xs, ft, a, tt, b)
        if ok:
            ctx.event("total_effects")
            ctx.check(abs(e - w) < 1e-6 * (1 + abs(w)), "longitudinal/total-effect", lambda: f"{a}@{ft}->{b}@{tt}: {e}, should be {w}")
    P = m.get_error_independence_p_values()
    from .L01 import hsic_gamma_p
    if N <= 150:
        for t in range(1, T):
            e = res[t] @ (np.eye(n) - A[t, 0]).T
            for i in range(n):
                for j in range(i):
                    ctx.event("p_values")
                    w = hsic_gamma_p(e[:, i], e[:, j])
                    ctx.check(abs(P[t, i, j] - w) < 1e-6 and P[t, i, j] == P[t, j, i], "longitudinal/p-values", lambda: f"{P[t, i, j]} should be {w}")


# ------------------------------------------------------------------ several groups
def multi(ctx):
    r = ctx.rng
    n, g = int(r.integers(2, 5)), int(r.integers(2, 4))
    big = ctx.index % 3 == 0
    E = gen.rand_dag(r, n)
    Ns = [4000 if big else int(r.choice([50, 120])) for _ in range(g)]
    if r.random() < .5:
        Ns = [Ns[0]] * g
    data = [gen.sem_linear(r, n, E, N, noise="uniform", lo=.7, hi=1.5) for N in Ns]
    Xs = [d[0] for d in data]
    keep = [x.copy() for x in Xs]
    pk = None
    if r.random() < .4:
        pk = np.full((n, n), -1)
        perm = [int(v) for v in r.permutation(n)]
        pk[perm[0], perm[1]] = 0
    mk = lambda: lingam.MultiGroupDirectLiNGAM() if pk is None else lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk)
    m = mk()
    for turn in range(2):
        ok, _ = ctx.call("fit", m.fit, Xs)
        if not ok:
            return
    order = [int(v) for v in m.causal_order_]
    ctx.note({"n": n, "sizes": Ns, "edges": sorted(E), "order": order})
    if len(set(Ns)) > 1:
        ctx.event("different_sizes")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(Xs, keep)), "multi/data-changed")
    ctx.check(sorted(order) == list(range(n)), "multi/order")
    ctx.state(order, [a.round(8).tolist() for a in m.adjacency_matrices_])
    for X, B in zip(Xs, m.adjacency_matrices_):
        from .L01 import coef_checks
        coef_checks(ctx, "multi", X, order, B, pk)
    # every step takes the variable whose size-weighted sum of scores is best
    if pk is None:
        cur = [x.copy() for x in Xs]
        Uc = list(range(n))
        for v in order:
            tot = {i: [0.0, 0.0] for i in Uc}
            for x in cur:
                for dd in (0, 1):
                    s = R.pairwise_scores(x, Uc, dd=dd)
                    for i in Uc:
                        tot[i][dd] += s[i] * len(x) / sum(Ns)
            ctx.event("order_steps")
            ctx.check(any(tot[v][dd] <= min(tot[i][dd] for i in Uc) + .02 * (1e-3 + min(tot[i][dd] for i in Uc)) for dd in (0, 1)), "multi/order-not-best",
                      lambda: f"{v} taken among {tot}")
            cur = [R.remove(x, Uc, v, 0) for x in cur]
            Uc = [i for i in Uc if i != v]
    else:
        ctx.event("knowledge")
        i, j = perm[0], perm[1]
        ctx.check(all(B[i, j] == 0 for B in m.adjacency_matrices_), "multi/forbidden-edge")
    if big:
        ctx.event("truths")
        ok = all(order.index(a) < order.index(b) for a, b in E)
        if pk is None or (perm[1], perm[0]) not in closure(n, E):
            ctx.check(ok, "multi/truth/order", lambda: f"{order} edges {sorted(E)}")
    if max(Ns) <= 150:
        from .L01 import hsic_gamma_p
        ok, P = ctx.call("get_error_independence_p_values", m.get_error_independence_p_values, Xs)
        if ok:
            ctx.check(len(P) == g, "multi/p-values-shape")
            for x, B, p in zip(Xs, m.adjacency_matrices_, P):
                e = x - x @ B.T
                for i in range(n):
                    for j in range(i):
                        ctx.event("p_values")
                        w = hsic_gamma_p(e[:, i], e[:, j])
                        ctx.check(abs(p[i, j] - w) < 1e-6 and p[i, j] == p[j, i], "multi/p-values", lambda: f"{p[i, j]}, {p[j, i]}, should be {w}")
    for a in order:
        for b in order[order.index(a) + 1:]:
            e = m.estimate_total_effect(Xs, a, b)
            for x, B, v in zip(Xs, m.adjacency_matrices_, e):
                P = [a] + [k for k in range(n) if B[a, k] != 0]
                w = R.adaptive_lasso(x, P, b)[0]
                ctx.event("total_effects")
                ctx.check(abs(v - w) < 1e-6 * (1 + abs(w)), "multi/total-effect", lambda: f"{a}->{b}: {v}, should be {w}")


def closure(n, E):
    C = set(E)
    while True:
        N = C | {(a, d) for a, b in C for c, d in C if b == c}
        if N == C:
            return C
        C = N


STREAMS = {
    "var": Stream(var, 90, 2000, need=["fits", "refits", "criteria", "lags:1", "lags:2", "p_values"], timeout=60),
    "var_truth": Stream(var_truth, 30, 500, need=["truths", "total_effects"], timeout=60),
    "varma_given": Stream(varma_given, 40, 800, need=["fits", "residuals", "varma_effects"], timeout=60),
    "varma_fit": Stream(varma_fit, 4, 40, need=["refits"], timeout=200, heavy=True),
    "longitudinal": Stream(longitudinal, 60, 1500, need=["points", "early_points", "truths", "total_effects", "p_values"], timeout=60),
    "multi": Stream(multi, 60, 1500, need=["order_steps", "different_sizes", "knowledge", "truths", "total_effects"], timeout=60),
}
