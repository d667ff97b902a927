"""Greedy equivalence search: every recorded step is a best valid operator, and the result is locally optimal."""
import numpy as np

from causallearn.search.ScoreBased.GES import ges

from .. import gen, ges_ref, lib, ref
from ..core import Stream
from .S01 import val
from causallearn.score import LocalScoreFunction as LSF

ID = "S02"
RULE = "a case = one data set, score and parent bound; distinct by the recorded sequence of operators and the final graph"
ASSUMPTIONS = ["local scores are the library's own score functions called directly (their values are property S01)",
               "operators by Chickering's validity conditions, cross-checked against enumeration of the classes",
               "the parent bound limits which variables may receive a further parent (those with at most maxP parents in the current class)"]


class Table:
    """local scores asked directly from the score functions"""

    def __init__(self, X, score, par):
        self.c = {}
        N = len(X)
        if score in ("local_score_BIC", "local_score_BIC_from_cov"):
            cov = np.cov(X.T)
            self.f = lambda i, P: LSF.local_score_BIC_from_cov((cov, N), i, P, {"lambda_value": 2})
        else:
            fun = {"local_score_BDeu": LSF.local_score_BDeu, "local_score_CV_general": LSF.local_score_cv_general, "local_score_CV_multi": LSF.local_score_cv_multi,
                   "local_score_marginal_general": LSF.local_score_marginal_general, "local_score_marginal_multi": LSF.local_score_marginal_multi}[score]
            self.f = lambda i, P: fun(X, i, P, par)

    def __call__(self, i, P):
        k = (i, tuple(sorted(int(p) for p in P)))
        if k not in self.c:
            self.c[k] = val(self.f(i, list(k[1])))
        return self.c[k]


def cls(ctx, G, n, what):
    D, U, X = lib.dir_und(G.graph)
    ctx.check(not X, f"ges/{what}/marks", lambda: f"edges that are neither directed nor undirected: {X}")
    ctx.check(lib.marks(G).key() == lib.matrix_marks(G.graph).key(), f"ges/{what}/edges-vs-matrix")
    return D, U


def run(ctx, X, score, maxp, par, names, use_names, equivalent, tab_par=None, N=None):
    n = N or X.shape[1]
    X0 = X.copy()
    kw = {"parameters": par} if par is not None else {}
    if maxp is not None:
        kw["maxP"] = maxp
    if use_names:
        kw["node_names"] = names
    R = ges(X, score, **kw)
    ctx.check(np.array_equal(X, X0), "ges/data-mutated")
    G = R["G"]
    got = [v.get_name() for v in G.get_nodes()]
    ctx.check(got == (list(names) if use_names else [f"X{i + 1}" for i in range(n)]), "ges/names", lambda: f"{got}")
    limit = n / 2 if maxp is None else maxp
    s = Table(X, score, tab_par if tab_par is not None else par)
    total = sum(s(i, ()) for i in range(n))
    tol = 1e-7 * (1 + abs(total))
    D, U = set(), set()
    for phase, ups, steps in ((1, R["update1"], R["G_step1"]), (2, R["update2"], R["G_step2"])):
        nm = "forward" if phase == 1 else "backward"
        ctx.check(len(ups) == len(steps), f"ges/{nm}/record-length", lambda: f"{len(ups)} operators, {len(steps)} graphs")
        for k in range(len(ups) + 1):
            ops = list(ges_ref.inserts(n, D, U, limit) if phase == 1 else ges_ref.deletes(n, D, U))
            delta = {(o[0], o[1], frozenset(o[2])): s(y, a) - s(y, b) for o, y, a, b in ops}
            best = min(delta.values(), default=np.inf)
            ctx.event("operators", len(delta))
            if k == len(ups):
                ctx.check(best > -tol, f"ges/{nm}/stops-early", lambda: f"stopped at {lib.show(D, U)} although {min(delta, key=delta.get)} improves the score by {-best}")
                break
            i, j, T = int(ups[k][0]), int(ups[k][1]), tuple(sorted(int(t) for t in ups[k][2]))
            op = (i, j, frozenset(T))
            if not ctx.check(op in delta, f"ges/{nm}/invalid-operator", lambda: f"step {k} {op} is not valid in {lib.show(D, U)} (maxP={maxp})"):
                return R
            d = delta[op]
            ctx.check(d < tol, f"ges/{nm}/not-improving", lambda: f"step {k} {op} changes the score by {d}")
            ctx.check(d <= best + tol, f"ges/{nm}/not-best", lambda: f"step {k} {op} changes the score by {d}, {min(delta, key=delta.get)} by {best}")
            ap = ges_ref.apply_insert if phase == 1 else ges_ref.apply_delete
            want = ges_ref.close(n, *ap(n, D, U, (i, j, T)))
            D, U = cls(ctx, steps[k], n, nm)
            ctx.check(want is not None and ges_ref.key(D, U) == ges_ref.key(*want), f"ges/{nm}/wrong-class",
                      lambda: f"step {k} {op} recorded {lib.show(D, U)}, should be {lib.show(*want) if want else None}")
            total += d
            ctx.event(f"{nm}_steps")
            ctx.state(nm, k, i, j, T, ges_ref.key(D, U))
    Df, Uf = cls(ctx, G, n, "final")
    ctx.check(ges_ref.key(Df, Uf) == ges_ref.key(D, U), "ges/final-graph", lambda: f"returned {lib.show(Df, Uf)}, last step {lib.show(D, U)}")
    sc = val(R["score"])
    ctx.check(abs(sc - total) <= 10 * tol, "ges/score", lambda: f"returned score {sc}, sum of the steps {total}")
    if equivalent:
        F = next(ref.extensions(n, Df, Uf), None)
        ctx.check(F is not None and ref.cpdag(n, F) == (Df, Uf), "ges/not-a-cpdag", lambda: f"{lib.show(Df, Uf)}")
        if F is not None:
            pa = ref.parents_of(n, F)
            t = sum(s(i, pa[i]) for i in range(n))
            ctx.check(abs(t - sc) <= 10 * tol, "ges/score-of-graph", lambda: f"returned score {sc}, score of the returned graph {t}")
    ctx.note({"n": n, "rows": len(X), "score": score, "maxP": maxp, "steps": [len(R["update1"]), len(R["update2"])], "graph": lib.show(Df, Uf)})
    return R


def pick_maxp(r, n):
    return None if r.random() < .35 else float(r.choice([0, 1, 1, 2, n, n]))


def bic(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    E = gen.rand_dag(r, n)
    N = int(r.choice([n + 2, 15, 40, 200, 1000]))
    X, _ = gen.sem_linear(r, n, E, N, noise=str(r.choice(["gauss", "uniform", "laplace"])), lo=.2, hi=1.5, offset=True)
    if r.random() < .3:
        X = X + r.normal(size=X.shape) * r.uniform(0, .5)
    run(ctx, X, str(r.choice(["local_score_BIC", "local_score_BIC_from_cov"])), pick_maxp(r, n), None, gen.names(r, n), r.random() < .5, True)


def backward(ctx):
    """denser worlds and many rows, where the forward phase adds edges the backward phase has to take back"""
    r = ctx.rng
    n = int(r.integers(5, 8))
    E = gen.rand_dag(r, n, p=r.uniform(.35, .65), shape="er")
    X, _ = gen.sem_linear(r, n, E, int(r.choice([1000, 5000, 20000])), lo=.3, hi=1.2)
    run(ctx, X, "local_score_BIC", float(n) if r.random() < .8 else None, None, gen.names(r, n), r.random() < .5, True)


def arbitrary(ctx):
    """data of no particular model: any covariance, few rows, so that the search passes through classes of every shape"""
    r = ctx.rng
    n = int(r.integers(5, 9))
    N = int(r.choice([n + 2, 12, 16, 25, 60]))
    X = r.normal(size=(N, n))
    kind = ctx.index % 4
    if kind == 1:                                # one common cause or more of everything
        X += r.normal(size=(N, 1)) @ r.normal(size=(1, n)) + r.normal(size=(N, 2)) @ r.normal(size=(2, n)) * .5
    elif kind == 2:                              # a tree, then some noise shared by a few
        for j in range(1, n):
            X[:, j] += X[:, int(r.integers(j)) if r.random() < .5 else 0] * r.choice([-1, 1]) * r.uniform(.8, 1.6)
        X += r.normal(size=(N, 1)) @ (r.random((1, n)) < .4) * r.uniform(.3, 1)
    elif kind == 3:                              # dense mixing
        X = X @ (np.eye(n) + r.normal(size=(n, n)) * r.uniform(.2, .6))
    run(ctx, X, "local_score_BIC", float(n) if r.random() < .7 else pick_maxp(r, n), None, gen.names(r, n), r.random() < .5, True)


def late_parent(ctx):
    """a hub with a clique of parents, some children and a weak further parent that is noticed last: many candidate sets T, few valid"""
    r = ctx.rng
    k, c = int(r.integers(2, 4)), int(r.integers(1, 3))
    n = k + c + 2
    hub, late = k, n - 1
    E = {(a, b) for a in range(k) for b in range(a + 1, k + 1)} | {(hub, hub + 1 + q) for q in range(c)} | {(late, hub)}
    if r.random() < .4:
        E -= {(0, 1)}                            # not a clique after all
    X = np.zeros((2000, n))
    for v in list(range(k)) + [late, hub] + list(range(hub + 1, hub + 1 + c)):
        X[:, v] = r.normal(size=2000)
        for a, b in sorted(E):
            if b == v:
                X[:, v] += X[:, a] * r.choice([-1, 1]) * (r.uniform(.15, .3) if a == late else r.uniform(.6, 1.2))
    run(ctx, X[:, r.permutation(n)], "local_score_BIC", float(n), None, gen.names(r, n), r.random() < .5, True)


def bdeu(ctx):
    r = ctx.rng
    n = int(r.integers(2, 6))
    X, _ = gen.sem_discrete(r, n, gen.rand_dag(r, n), int(r.choice([15, 60, 250])), base=int(r.integers(0, 2)))
    run(ctx, X, "local_score_BDeu", pick_maxp(r, n), None, gen.names(r, n), r.random() < .5, True)


def kernel(ctx):
    r = ctx.rng
    n = int(r.integers(2, 4))
    N = int(r.choice([20, 30]))
    X, _ = gen.sem_linear(r, n, gen.rand_dag(r, n), N, noise=str(r.choice(["gauss", "exp"])))
    if r.random() < .5:
        X = np.tanh(X) + .3 * r.normal(size=X.shape)
    which = str(r.choice(["local_score_CV_general", "local_score_CV_multi", "local_score_marginal_general", "local_score_marginal_multi"], p=[.35, .35, .15, .15]))
    names = gen.names(r, n)
    if which.startswith("local_score_marginal"):
        X, n, names = X[:15, :2], 2, names[:2]
    par = None
    if which == "local_score_CV_general" and r.random() < .7:
        par = {"kfold": int(r.choice([3, 5])), "lambda": float(r.choice([.01, .1]))}
    if which == "local_score_CV_multi" and r.random() < .7:
        par = {"kfold": int(r.choice([3, 5])), "lambda": float(r.choice([.01, .1])), "dlabel": {i: [i] for i in range(n)}}
    tab = par
    if par is None:
        tab = {"kfold": 10, "lambda": .01, "dlabel": {i: i for i in range(n)}}
        if which.startswith("local_score_marginal"):
            tab = {"dlabel": tab["dlabel"]}
    ctx.event(which)
    run(ctx, X, which, pick_maxp(r, n), par, names, r.random() < .5, False, tab)


def multi(ctx):
    """variables made of several columns"""
    r = ctx.rng
    n = int(r.integers(2, 4))
    N = 24
    base, _ = gen.sem_linear(r, n, gen.rand_dag(r, n, p=.7), N)
    cols, lab = [], {}
    for v in range(n):
        k = int(r.integers(1, 3))
        lab[v] = list(range(len(cols), len(cols) + k))
        cols += [base[:, v] + .3 * r.normal(size=N) * (q > 0) for q in range(k)]
    X = np.column_stack(cols)
    perm = r.permutation(X.shape[1])
    X = X[:, perm]
    inv = np.argsort(perm)
    lab = {v: [int(inv[c]) for c in lab[v]] for v in lab}
    par = {"kfold": 3, "lambda": .05, "dlabel": lab}
    ctx.event("blocks", sum(len(v) > 1 for v in lab.values()))
    run(ctx, X, "local_score_CV_multi", pick_maxp(r, n), par, gen.names(r, n), r.random() < .5, False, par, N=n)


def truth(ctx):
    """in the large-sample limit GES returns the class of the generating DAG"""
    r = ctx.rng
    n = int(r.integers(3, 7))
    for _ in range(30):
        E = gen.rand_dag(r, n)
        X, C, _ = gen.exact_cov_data(r, n, E, N=20000)
        if gen.faithful_cov(C, n, E, tol=.05):
            break
    else:
        return ctx.event("unfaithful")
    perm = r.permutation(n)
    names = gen.names(r, n)
    R = ges(X[:, perm], "local_score_BIC", maxP=n, node_names=[names[p] for p in perm])
    D, U = cls(ctx, R["G"], n, "final")
    D = {(int(perm[a]), int(perm[b])) for a, b in D}
    U = {frozenset(int(perm[a]) for a in s) for s in U}
    wD, wU = ref.cpdag(n, E)
    ctx.check((D, U) == (wD, wU), "ges/truth", lambda: f"DAG {lib.E_(E)}: got {lib.show(D, U)}, should be {lib.show(wD, wU)}")
    ctx.event("truths")
    ctx.state(tuple(sorted(E)), tuple(perm))
    ctx.note({"n": n, "E": lib.E_(E), "class": lib.show(wD, wU), "steps": [len(R["update1"]), len(R["update2"])]})


STREAMS = {
    "bic": Stream(bic, 260, 12000, need={"forward_steps": 200, "backward_steps": 10}),
    "backward": Stream(backward, 100, 4000, need={"backward_steps": 30}),
    "arbitrary": Stream(arbitrary, 200, 8000, need={"forward_steps": 200, "backward_steps": 20}),
    "late_parent": Stream(late_parent, 60, 2000, need={"forward_steps": 100}),
    "bdeu": Stream(bdeu, 60, 3000, need={"forward_steps": 40}),
    "kernel": Stream(kernel, 30, 900, need={"forward_steps": 10}),
    "multi": Stream(multi, 20, 600, need={"blocks": 10}),
    "truth": Stream(truth, 80, 4000, need={"truths": 50}),
}
