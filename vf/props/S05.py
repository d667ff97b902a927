"""Markov networks by IAMB, and the continuous CALM search."""
import itertools

import numpy as np
import torch

from causallearn.search.ScoreBased.CALM import CalmModel, calm
from causallearn.utils.CALMUtils import gumbel_sigmoid, matrix_poly
from causallearn.utils.MarkovNetwork.iamb import iamb, iamb_markov_network
from causallearn.utils.cit import CIT

from .. import gen, lib, ref
from ..core import Stream

ID = "S05"
RULE = "a case = one Markov blanket search, one evaluation of the CALM objective, or one CALM run; distinct by inputs and result"
ASSUMPTIONS = ["CALM runs are short (hundreds to thousands of optimizer steps), so only structural guarantees are judged on them",
               "objective terms are compared with closed forms in numpy; the random mask by moments of many samples"]


def moral(n, E):
    U = ref.skeleton(E)
    for v, P in enumerate(ref.parents_of(n, E)):
        U |= {frozenset(p) for p in itertools.combinations(P, 2)}
    return U


def network(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    for _ in range(30):
        E = gen.rand_dag(r, n)
        X, C, _ = gen.exact_cov_data(r, n, E, N=20000)
        if n > 6 or gen.faithful_cov(C, n, E, tol=.05):
            break
    P = np.linalg.inv(C)
    X0 = X.copy()
    if n <= 6:
        M, k = iamb_markov_network(X, alpha=float(r.choice([.01, .001])))
        M = np.asarray(M)
        got = {frozenset((i, j)) for i in range(n) for j in range(n) if M[i, j]}
        ctx.check(np.array_equal(M, M.T) and set(np.unique(M)) <= {0, 1} and not M.diagonal().any(), "markov-network/shape")
        ctx.check(got == moral(n, E), "markov-network/truth", lambda: f"{lib.E_(E)}: {sorted(map(sorted, got))}, moral graph {sorted(map(sorted, moral(n, E)))}")
        ctx.event("networks")
        ctx.state(tuple(sorted(E)))
    else:
        X, _ = gen.sem_linear(r, n, E, int(r.choice([20, 60, 200])))
        X0 = X.copy()
        a = float(r.choice([.01, .05, .2]))
        M, k = iamb_markov_network(X, alpha=a)
        t = CIT(X, "fisherz")
        mb = [set(iamb(t, n, i, a)[0]) for i in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            ctx.check(bool(M[i, j]) == bool(M[j, i]) == (j in mb[i] and i in mb[j]), "markov-network/and-rule",
                      lambda: f"edge {i}-{j}: {M[i, j]}, {j} in blanket of {i}: {j in mb[i]}, {i} in blanket of {j}: {i in mb[j]}")
        ctx.event("noisy_networks")
        ctx.state(M.tolist())
    ctx.check(np.array_equal(X, X0), "markov-network/data-mutated")
    ctx.note({"n": n, "E": lib.E_(E), "tests": int(k)})


def blanket(ctx):
    """every decision of IAMB is justified by the answers it got, whatever they are"""
    r = ctx.rng
    n = int(r.integers(2, 7))
    target = int(r.integers(n))
    alpha = float(r.choice([.01, .05, .3]))
    q = r.uniform(.2, .9)
    ans, log = {}, []

    def test(x, y, S):
        if len(S):
            assert len(set(S)) == len(S)
        k = (x, y, frozenset(int(s) for s in S))
        if k not in ans:
            ans[k] = float(r.choice([0, alpha])) if r.random() < .1 else float(r.uniform(0, alpha) if r.random() < q else r.uniform(alpha, 1))
        log.append((x, y, frozenset(int(s) for s in S), ans[k]))
        return ans[k]

    mb, k = iamb(test, n, target, alpha)
    ctx.check(k == len(log), "iamb/count", lambda: f"reports {k} tests, {len(log)} were done")
    B, pos = [], 0
    while True:
        cand = [v for v in range(n) if v != target and v not in B]
        asked = {}
        for x, y, S, p in log[pos:pos + len(cand)]:
            ctx.check(x == target and S == frozenset(B) and y in cand, "iamb/forward-query", lambda: f"query {(x, y, sorted(S))} while the blanket is {B}")
            asked[y] = p
        pos += len(cand)
        ctx.check(set(asked) == set(cand), "iamb/forward-coverage", lambda: f"asked {sorted(asked)}, candidates {cand}")
        dep = {y: p for y, p in asked.items() if p <= alpha}
        if not dep:
            break
        m = min(dep.values())
        ties = [y for y in dep if dep[y] == m]
        nxt = log[pos][2] if pos < len(log) else None
        pick = [y for y in ties if nxt is None or nxt == frozenset(B + [y]) or len(cand) == 1 or len(ties) == 1]
        if not ctx.check(pick, "iamb/forward-choice", lambda: f"blanket {B}, p-values {dep}, next conditioning set {nxt}"):
            return
        B.append(pick[0])
        ctx.event("grown")
    keep = list(B)
    for x, y, S, p in log[pos:]:
        ctx.check(x == target and y in keep and S == frozenset(keep) - {y}, "iamb/backward-query", lambda: f"query {(x, y, sorted(S))} with blanket {keep}")
        if p > alpha and y in keep:
            keep.remove(y)
            ctx.event("shrunk")
    ctx.check({y for _, y, _, _ in log[pos:]} == set(B), "iamb/backward-coverage", lambda: f"grown {B}, asked about {sorted(y for _, y, _, _ in log[pos:])}")
    ctx.check(sorted(mb) == sorted(keep), "iamb/result", lambda: f"returned {mb}, the answers justify {keep}")
    ctx.state(tuple((x, y, tuple(sorted(S)), p > alpha) for x, y, S, p in log))
    ctx.note({"n": n, "target": target, "alpha": alpha, "tests": k, "blanket": sorted(int(v) for v in mb)})


def objective(ctx):
    r = ctx.rng
    d = int(r.integers(2, 7))
    E = gen.rand_dag(r, d)
    X, _ = gen.sem_linear(r, d, E, 200)
    C = np.cov(X.T, bias=True)
    mask = (r.random((d, d)) < .8).astype(float)
    mask = np.maximum(mask, mask.T)
    np.fill_diagonal(mask, 0)
    lam, tau = float(r.choice([.005, .1])), float(r.choice([.2, .5, 1]))
    m = CalmModel(d, torch.from_numpy(mask), tau=tau, lambda1=lam)
    B = r.normal(size=(d, d)) * .4 * mask
    L, S = r.normal(size=(d, d)) * 2, r.random((d, d)) * mask
    with torch.no_grad():
        m.B_param.copy_(torch.from_numpy(B))
        m.B_logit.copy_(torch.from_numpy(L))
        I = np.eye(d)
        res = np.diag((I - B).T @ C @ (I - B))
        want = .5 * np.log(res).sum() - np.linalg.slogdet(I - B)[1]
        got = float(m.compute_likelihood(torch.from_numpy(B), torch.from_numpy(C)))
        ctx.check(abs(got - want) < 1e-8 * (1 + abs(want)), "calm/likelihood", lambda: f"{got}, should be {want}")
        # the likelihood is the one of the linear model with one noise variance per equation: smallest at the regression coefficients of a complete DAG
        o = [int(v) for v in r.permutation(d)]
        Bc = np.zeros((d, d))
        for q, v in enumerate(o):
            P = o[:q]
            if P:
                Bc[P, v] = np.linalg.solve(C[np.ix_(P, P)], C[P, v])
        best = float(m.compute_likelihood(torch.from_numpy(Bc), torch.from_numpy(C)))
        ctx.check(abs(best - .5 * np.linalg.slogdet(C)[1]) < 1e-8 * (1 + abs(best)), "calm/likelihood-of-complete-dag", lambda: f"{best}, should be {.5 * np.linalg.slogdet(C)[1]}")
        h = float(m.compute_h(torch.from_numpy(S)))
        hw = np.trace(np.linalg.matrix_power(I + S / d, d)) - d
        ctx.check(abs(h - hw) < 1e-9 * (1 + abs(hw)), "calm/acyclicity", lambda: f"{h}, should be {hw}")
        A = np.zeros((d, d))
        for i, j in gen.rand_dag(r, d):
            A[i, j] = r.uniform(.3, 1)
        dag = float(m.compute_h(torch.from_numpy(A)))
        ctx.check(abs(dag) < 1e-9, "calm/acyclicity-of-dag", lambda: f"{dag} for an acyclic mask")
        if A.any():
            i, j = [int(v) for v in np.argwhere(A)[0]]
            A[j, i] = .7
            ctx.check(float(m.compute_h(torch.from_numpy(A))) > 1e-3, "calm/acyclicity-of-cycle")
        ctx.check(abs(float(m.compute_sparsity(torch.from_numpy(S))) - S.sum()) < 1e-9, "calm/sparsity")
        p = m.get_params()
        Bb = (1 / (1 + np.exp(-L / tau)) >= .5) * (mask > 0)
        ctx.check(np.array_equal(p["B_bin"], Bb.astype(float)), "calm/threshold", lambda: f"{p['B_bin'].tolist()}, logits {L.tolist()}, mask {mask.tolist()}")
        ctx.check(np.allclose(p["B"], Bb * B, atol=1e-12), "calm/weights")
        m2 = CalmModel(d, torch.from_numpy(mask), tau=tau, lambda1=lam)
        m2.B_param.copy_(torch.from_numpy(B))
        m2.B_logit.copy_(torch.from_numpy(L))
        torch.manual_seed(ctx.index)
        M = m2.sample_mask().numpy()
        ctx.check(((M >= 0) & (M <= 1)).all() and not (M * (mask == 0)).any(), "calm/sampled-mask")
        rho = 10 ** float(r.uniform(-3, 4))
        torch.manual_seed(ctx.index)
        loss = float(m2.compute_loss(torch.from_numpy(C), rho))
        BM = M * B
        hM = np.trace(np.linalg.matrix_power(I + M / d, d)) - d
        lw = .5 * np.log(np.diag((I - BM).T @ C @ (I - BM))).sum() - np.linalg.slogdet(I - BM)[1] + lam * M.sum() + .5 * rho * hM ** 2
        ctx.check(abs(loss - lw) < 1e-7 * (1 + abs(lw)), "calm/loss", lambda: f"{loss}, should be {lw}")
        # Gumbel-sigmoid: P(mask > 1/2) = sigmoid(logit), and logit(mask) * tau - logit is standard logistic
        z = torch.zeros(4000, dtype=torch.double) + float(L[0, 1])
        g = gumbel_sigmoid(z, tau=tau).numpy()
        pr = 1 / (1 + np.exp(-L[0, 1]))
        ctx.check(abs((g > .5).mean() - pr) < 6 * np.sqrt(pr * (1 - pr) / 4000) + 1e-3, "calm/gumbel-probability", lambda: f"{(g > .5).mean()}, should be {pr}")
        mp = matrix_poly(torch.from_numpy(S), d, "cpu").numpy()
        ctx.check(np.allclose(mp, np.linalg.matrix_power(I + S / d, d)), "calm/matrix-poly")
    ctx.event("objectives")
    ctx.state(round(lw, 6))
    ctx.note({"d": d, "lambda": lam, "tau": tau, "rho": rho})


def run(ctx):
    r = ctx.rng
    torch.set_num_threads(1)
    d = int(r.integers(2, 5))
    E = gen.rand_dag(r, d, p=.8, shape="er")
    X, _ = gen.sem_linear(r, d, E, 300, offset=True)
    std = bool(r.random() < .3)
    its = 2500 if ctx.tier == "quick" else int(r.choice([2500, 5000]))
    kw = dict(subproblem_iter=its, rho_init=1e-4, rho_mult=1e3, htol=1e-4, lambda1=float(r.choice([.005, .02])), standardize=std, alpha=.01)
    X0 = X.copy()
    torch.manual_seed(ctx.index)
    R = calm(X, **kw)
    ctx.check(np.array_equal(X, X0), "calm/data-mutated")
    G, B = R["G"], np.asarray(R["B_weighted"])
    Z = (X - X.mean(0)) / X.std(0) if std else X - X.mean(0)
    M, _ = iamb_markov_network(Z, alpha=.01)
    D, U, bad = lib.dir_und(G.graph)
    ctx.check(not U and not bad, "calm/not-directed", lambda: f"{U} {bad}")
    ctx.check(ref.is_acyclic(d, D), "calm/cyclic", lambda: f"{lib.E_(D)}")
    ctx.check({(int(i), int(j)) for i, j in zip(*np.where(np.abs(B) > 0))} == D, "calm/graph-vs-weights", lambda: f"graph {lib.E_(D)}, weights {B.tolist()}")
    ctx.check(all(M[i, j] for i, j in D), "calm/outside-markov-network", lambda: f"{lib.E_(D)} with network {np.asarray(M).tolist()}")
    ctx.check([v.get_name() for v in G.get_nodes()] == [f"X{i + 1}" for i in range(d)], "calm/names")
    ctx.event("runs")
    ctx.event("edges", len(D))
    ctx.state(frozenset(D), np.round(B, 4).tolist())
    ctx.note({"d": d, "options": kw, "truth": lib.E_(E), "graph": lib.E_(D)})


STREAMS = {
    "run": Stream(run, 8, 120, need={"runs": 6, "edges": 3}, timeout=300, steps=2_000_000_000, heavy=True),
    "network": Stream(network, 120, 3000, need={"networks": 60, "noisy_networks": 5}),
    "blanket": Stream(blanket, 300, 10000, need={"grown": 200, "shrunk": 50}),
    "objective": Stream(objective, 100, 3000, need={"objectives": 90}),
}
