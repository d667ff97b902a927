"""Workload generators (no library import)."""
import itertools

import numpy as np

from . import ref


def rand_dag(rng, n, p=None, shape=None):
    """random DAG on range(n) with a random topological order"""
    if shape is None:
        shape = rng.choice(["er", "er", "er", "er", "sparse", "dense", "chain", "tree", "star_in", "star_out", "complete",
                            "empty", "bipartite", "layers"], p=[.13, .13, .13, .13, .1, .1, .04, .06, .04, .04, .03, .01, .03, .03])
    o = [int(v) for v in rng.permutation(n)]
    E = set()
    if shape in ("er", "sparse", "dense"):
        q = p if p is not None else {"er": rng.uniform(.2, .6), "sparse": rng.uniform(.05, .25), "dense": rng.uniform(.6, .95)}[shape]
        E = {(o[i], o[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < q}
    elif shape == "chain":
        E = {(o[i], o[i + 1]) for i in range(n - 1)}
    elif shape == "tree":
        E = {(o[int(rng.integers(0, i))], o[i]) for i in range(1, n)}
    elif shape == "star_in":
        E = {(o[i], o[n - 1]) for i in range(n - 1)}
    elif shape == "star_out":
        E = {(o[0], o[i]) for i in range(1, n)}
    elif shape == "complete":
        E = {(o[i], o[j]) for i in range(n) for j in range(i + 1, n)}
    elif shape == "bipartite":
        k = max(1, n // 2)
        E = {(o[i], o[j]) for i in range(k) for j in range(k, n) if rng.random() < .6}
    elif shape == "layers":
        lay = sorted(int(v) for v in rng.integers(0, 3, n))
        E = {(o[i], o[j]) for i in range(n) for j in range(i + 1, n) if lay[j] == lay[i] + 1 and rng.random() < .7}
    return E


def sparse_dag(rng, n, edges=None, parents=3):
    """random DAG with about n edges and few parents, for worlds of ten and more variables"""
    o = [int(v) for v in rng.permutation(n)]
    E = set()
    for _ in range(50 * n):
        if len(E) >= (edges or n):
            break
        i, j = sorted(int(v) for v in rng.choice(n, 2, replace=False))
        if sum(b == o[j] for _, b in E) < parents and sum(o[j] in e for e in E) < 4 and sum(o[i] in e for e in E) < 4:
            E.add((o[i], o[j]))
    return E


def names(rng, n, style=None):
    style = style or rng.choice(["X", "perm", "pad", "words"])
    if style == "X":
        return [f"X{i + 1}" for i in range(n)]
    if style == "perm":
        ids = rng.permutation(n + 5)[:n]
        return [f"X{int(i) + 1}" for i in ids]
    if style == "pad":
        # lexicographic order differs from creation order
        return [f"v{int(i)}" for i in rng.permutation(np.arange(7, 7 + n))]
    w = ["smoking", "age", "Income", "z9", "a", "B", "gene_1", "gene_10", "gene_2", "T", "pH", "x.y", "Q7", "lag-1"]
    w = [w[int(i)] for i in rng.permutation(len(w))][:n]
    return w + [f"extra{i}" for i in range(n - len(w))]


def sem_linear(rng, n, E, N, noise="gauss", lo=.5, hi=1.5, scale=True, offset=False):
    """data from a linear SEM; returns X (N x n), W with W[j, i] = weight of i -> j"""
    W = np.zeros((n, n))
    for i, j in sorted(E):
        W[j, i] = rng.uniform(lo, hi) * (1 if rng.random() < .5 else -1)
    X = np.zeros((N, n))
    pa = ref.parents_of(n, E)
    for v in ref.topo(n, E):
        if noise == "gauss":
            e = rng.normal(size=N)
        elif noise == "uniform":
            e = rng.uniform(-1.7, 1.7, N)
        elif noise == "laplace":
            e = rng.laplace(size=N)
        elif noise == "exp":
            e = rng.exponential(size=N) - 1
        elif noise == "t":
            e = rng.standard_t(5, N)
        if scale:
            e = e * rng.uniform(.7, 1.4)
        X[:, v] = e + sum((W[v, p] * X[:, p] for p in sorted(pa[v])), np.zeros(N))
    if offset:
        X = X + rng.normal(size=n) * 3
    return X, W


def sem_discrete(rng, n, E, N, maxlev=3, base=0):
    """data from random CPTs; returns integer array and levels"""
    lev = [int(rng.integers(2, maxlev + 1)) for _ in range(n)]
    X = np.zeros((N, n), dtype=int)
    pa = ref.parents_of(n, E)
    for v in ref.topo(n, E):
        ps = sorted(pa[v])
        cpt = {}
        for i in range(N):
            k = tuple(X[i, ps])
            if k not in cpt:
                cpt[k] = rng.dirichlet(np.full(lev[v], .6))
            X[i, v] = np.searchsorted(np.cumsum(cpt[k])[:-1], rng.random())
    return X + base, lev


def exact_cov_data(rng, n, E, N=None, lo=.4, hi=1.2, reps=0):
    """a data matrix whose *sample* covariance equals a linear SEM's population covariance exactly
    (sample size N), so that partial correlations vanish exactly where the DAG says so."""
    W = np.zeros((n, n))
    for i, j in sorted(E):
        W[j, i] = rng.uniform(lo, hi) * (1 if rng.random() < .5 else -1)
    A = np.linalg.inv(np.eye(n) - W)
    D = np.diag(rng.uniform(.6, 1.5, n))
    C = A @ D @ A.T
    N = N or max(20 * n, 200)
    Z = rng.normal(size=(N, n))
    Z = Z - Z.mean(0)
    Lz = np.linalg.cholesky(np.cov(Z.T, bias=True))
    Z = Z @ np.linalg.inv(Lz).T          # sample covariance exactly identity
    X = Z @ np.linalg.cholesky(C).T
    return X, C, W


def faithful_cov(C, n, E, tol=5e-3):
    """is every d-connection of (n,E) visible as a non-negligible partial correlation of C?"""
    for x, y in itertools.combinations(range(n), 2):
        rest = [v for v in range(n) if v not in (x, y)]
        for k in range(len(rest) + 1):
            for Z in itertools.combinations(rest, k):
                if not ref.dsep(n, E, x, y, Z):
                    idx = [x, y] + list(Z)
                    P = np.linalg.inv(C[np.ix_(idx, idx)])
                    r = -P[0, 1] / np.sqrt(P[0, 0] * P[1, 1])
                    if abs(r) < tol:
                        return False
    return True
