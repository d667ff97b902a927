"""Permutation-based search (GRaSP, BOSS): grow-shrink trees and locally optimal orders."""
import itertools
import random

import numpy as np

from causallearn.score import LocalScoreFunction as LSF
from causallearn.score.LocalScoreFunctionClass import LocalScoreClass
from causallearn.search.PermutationBased.BOSS import boss
from causallearn.search.PermutationBased.GRaSP import grasp
from causallearn.search.PermutationBased.gst import GST

from .. import gen, lib, ref
from ..core import Stream

ID = "S04"
RULE = "a case = one data set and score; for searches all variable orders are projected and classified; distinct by result and score landscape"
ASSUMPTIONS = ["local scores are the library's own score functions called directly (property S01)",
               "the set of parents of a variable given its predecessors is the library's grow-shrink projection, itself judged in the tree stream"]
EPS = 1e-6


def scored(r, kinds=("bic", "bic", "bic", "bdeu", "cv")):
    """(data, LocalScoreClass, name of the score, parameters)"""
    kind = str(r.choice(kinds))
    n = int(r.integers(2, 6))
    E = gen.rand_dag(r, n)
    if kind == "bdeu":
        X, _ = gen.sem_discrete(r, n, E, int(r.choice([20, 80, 250])))
        return X, LSF.local_score_BDeu, "local_score_BDeu", None, None
    if kind == "cv":
        n = min(n, 3)
        X, _ = gen.sem_linear(r, n, {e for e in E if max(e) < n}, 20, noise="exp")
        par = {"kfold": 3, "lambda": .05}
        return X, LSF.local_score_cv_general, "local_score_CV_general", par, par
    X, _ = gen.sem_linear(r, n, E, int(r.choice([n + 3, 15, 40, 300])), noise=str(r.choice(["gauss", "uniform", "laplace"])), lo=.2, offset=True)
    if r.random() < .3:
        X = X + r.normal(size=X.shape) * .5
    par = None if r.random() < .6 else {"lambda_value": float(r.choice([.5, 1, 4]))}
    return X, LSF.local_score_BIC_from_cov, str(r.choice(["local_score_BIC", "local_score_BIC_from_cov"])), par, par or {"lambda_value": 2}


def outcomes(v, prefix, s):
    """every parent set a grow phase (add improving variables until none improves) followed by a shrink phase can end with"""
    out, seen, todo = set(), set(), [frozenset()]
    while todo:
        P = todo.pop()
        if P in seen:
            continue
        seen.add(P)
        up = [a for a in prefix if a not in P and s(v, P | {a}) > s(v, P)]
        todo += [P | {a} for a in up]
        if not up:
            Q = P
            while Q:
                best = max(Q, key=lambda a: s(v, Q - {a}))
                if not s(v, Q - {best}) > s(v, Q):
                    break
                Q = Q - {best}
            out.add(Q)
    return out


class Neg:
    def __init__(self, X, score, par):
        if score.startswith("local_score_BIC"):
            c = np.cov(X.T)
            f = lambda i, P: LSF.local_score_BIC_from_cov((c, len(X)), i, P, par)
        elif score == "local_score_BDeu":
            f = lambda i, P: LSF.local_score_BDeu(X, i, P, None)
        else:
            f = lambda i, P: {"local_score_CV_general": LSF.local_score_cv_general, "local_score_CV_multi": LSF.local_score_cv_multi,
                              "local_score_marginal_general": LSF.local_score_marginal_general, "local_score_marginal_multi": LSF.local_score_marginal_multi}[score](X, i, P, par)
        self.f, self.c = f, {}

    def __call__(self, i, P):
        k = (i, frozenset(P))
        if k not in self.c:
            self.c[k] = -float(np.asarray(self.f(i, sorted(P))).reshape(-1)[0])
        return self.c[k]


def tree(ctx):
    r = ctx.rng
    X, fun, name, par, eff = scored(r)
    wide = ctx.index % 12 == 5                   # more variables than the searches of this property use
    if wide:
        X, fun, name, par, eff = gen.sem_linear(r, 16, gen.sparse_dag(r, 16, edges=26), 60)[0], LSF.local_score_BIC_from_cov, "local_score_BIC", None, {"lambda_value": 2}
        ctx.event("wide")
    n = X.shape[1]
    lsc = LocalScoreClass(data=X, local_score_fun=fun, parameters=eff)
    s = Neg(X, name, eff)
    v = int(r.integers(n))
    t = GST(v, lsc)
    others = [u for u in range(n) if u != v]
    seen = {}
    for q in range(int(r.integers(5, 25))):
        k = int(r.integers(0, min(n, 7)))
        prefix = [others[int(i)] for i in r.permutation(n - 1)[:k]]
        given = list(prefix)
        P = []
        sc = t.trace(prefix, P)
        ctx.event("traces")
        ctx.check(prefix == given, "gst/prefix-mutated")
        ctx.check(len(set(P)) == len(P) and set(P) <= set(prefix), "gst/parents-outside-prefix", lambda: f"{P} for prefix {prefix}")
        tol = 1e-9 * (1 + abs(s(v, P)))
        ctx.check(abs(float(np.asarray(sc).reshape(-1)[0]) - s(v, P)) <= 1e-7 * (1 + abs(s(v, P))), "gst/score", lambda: f"score {sc} returned with parents {P}, whose score is {s(v, P)}")
        ctx.check(frozenset(P) in outcomes(v, prefix, s) or near_tie(v, prefix, P, s), "gst/not-grow-shrink",
                  lambda: f"variable {v} prefix {prefix}: parents {P}, possible {[sorted(o) for o in outcomes(v, prefix, s)]}")
        ctx.check(seen.setdefault(frozenset(prefix), frozenset(P)) == frozenset(P), "gst/history", lambda: f"prefix {prefix}: {sorted(P)}, before {sorted(seen[frozenset(prefix)])}")
        if r.random() < .2:
            Q = []
            GST(v, lsc).trace(list(prefix), Q)
            ctx.check(set(Q) == set(P), "gst/fresh-tree", lambda: f"prefix {prefix}: {P} from a used tree, {Q} from a fresh one")
        if r.random() < .3:
            sc2 = t.trace(list(prefix))
            ctx.check(abs(float(np.asarray(sc2).reshape(-1)[0]) - s(v, P)) <= 1e-7 * (1 + abs(s(v, P))), "gst/score-without-parents")
        ctx.state(v, frozenset(prefix), frozenset(P), name)
    ctx.note({"n": n, "rows": len(X), "score": name, "vertex": v})


def near_tie(v, prefix, P, s):
    """rounding differences between equal scores are not judged"""
    vals = sorted(s(v, c) for k in range(len(prefix) + 1) for c in itertools.combinations(prefix, k))
    return any(b - a < 1e-8 * (1 + abs(a)) for a, b in zip(vals, vals[1:]))


class Landscape:
    def __init__(self, X, fun, par):
        self.lsc = LocalScoreClass(data=X, local_score_fun=fun, parameters=par)
        self.n = X.shape[1] if not (par and "dlabel" in par) else len(par["dlabel"])
        self.t = [GST(v, self.lsc) for v in range(self.n)]
        self.c = {}

    def proj(self, v, prefix):
        k = (v, frozenset(prefix))
        if k not in self.c:
            P = []
            sc = self.t[v].trace(list(prefix), P)
            self.c[k] = (frozenset(P), float(np.asarray(sc).reshape(-1)[0]))
        return self.c[k]

    def score(self, o):
        return sum(self.proj(v, o[:i])[1] for i, v in enumerate(o))

    def dag(self, o):
        return {(p, v) for i, v in enumerate(o) for p in self.proj(v, o[:i])[0]}

    def cpdag(self, o):
        D, U = ref.cpdag(self.n, self.dag(o))
        return frozenset(D), frozenset(U)

    def moves(self, o):
        for i in range(len(o)):
            rest = o[:i] + o[i + 1:]
            for j in range(len(o)):
                if j != i:
                    yield rest[:j] + (o[i],) + rest[j:]

    def tuck(self, o, x, y):
        """y and its ancestors between x and y move in front of x"""
        E = self.dag(o)
        anc = ref.ancestors(self.n, E, [y]) | {y}
        j, i = o.index(x), o.index(y)
        mid = o[j:i + 1]
        front = tuple(v for v in mid[1:] if v in anc)
        return o[:j] + front + tuple(v for v in mid if v not in front) + o[i + 1:]

    def boss_optimal(self, o):
        s = self.score(o)
        return all(self.score(m) <= s + EPS * 1.01 for m in self.moves(o))

    def grasp_optimal(self, o, depth):
        s = self.score(o)
        for x, y in self.dag(o):
            t = self.tuck(o, x, y)
            st = self.score(t)
            if st > s + EPS * 1.01:
                return False
            if depth >= 2 and abs(st - s) < EPS * .9 and (y, x) in self.dag(t):
                E = self.dag(t)
                pa = ref.parents_of(self.n, E)
                for a, b in E:
                    if set(pa[a]) | {a} == set(pa[b]) and self.score(self.tuck(t, a, b)) > st + EPS * 1.01:
                        return False
        return True


def search(ctx, algo, X, fun, name, par, eff):
    r = ctx.rng
    L = Landscape(X, fun, eff)
    n = L.n
    names = gen.names(r, n)
    kw = {"verbose": bool(r.random() < .3)}
    if r.random() < .5:
        kw["node_names"] = names
    if par is not None:
        kw["parameters"] = par
    depth = 3
    if algo == "grasp":
        if r.random() < .7:
            kw["depth"] = depth = int(r.integers(1, 5))
    f = boss if algo == "boss" else grasp
    X0 = X.copy()
    seed = int(r.integers(1 << 30))
    random.seed(seed)
    G = f(X, name, **kw)
    ctx.check(np.array_equal(X, X0), f"{algo}/data-mutated")
    ctx.check([v.get_name() for v in G.get_nodes()] == (list(names) if "node_names" in kw else [f"X{i + 1}" for i in range(n)]), f"{algo}/names")
    D, U, bad = lib.dir_und(G.graph)
    ctx.check(not bad, f"{algo}/marks", lambda: f"{bad}")
    F = next(ref.extensions(n, D, U), None)
    ctx.check(F is not None and ref.cpdag(n, F) == (D, U), f"{algo}/not-a-cpdag", lambda: f"{lib.show(D, U)}")
    orders = [o for o in itertools.permutations(range(n)) if L.cpdag(o) == (frozenset(D), frozenset(U))]
    ctx.event("orders", len(orders))
    if ctx.check(orders, f"{algo}/not-a-projection", lambda: f"{lib.show(D, U)} is the projection of no order"):
        ok = any(L.boss_optimal(o) if algo == "boss" else L.grasp_optimal(o, depth) for o in orders)
        ctx.check(ok, f"{algo}/not-locally-optimal", lambda: f"{kw} score={name} n={n}: {lib.show(D, U)}: every order with this projection can be improved by a single move")
    if r.random() < .3:
        random.seed(seed)
        G2 = f(X, name, **{**kw, "verbose": not kw["verbose"]} if algo == "grasp" else kw)
        ctx.check(np.array_equal(G.graph, G2.graph), f"{algo}/not-reproducible")
    ctx.event("searches")
    ctx.state(algo, name, depth, frozenset(D), frozenset(U), round(L.score(tuple(range(n))), 6))
    ctx.note({"algorithm": algo, "n": n, "rows": len(X), "score": name, "depth": depth, "graph": lib.show(D, U), "orders": len(orders)})


def boss_search(ctx):
    search(ctx, "boss", *scored(ctx.rng))


def grasp_search(ctx):
    search(ctx, "grasp", *scored(ctx.rng))


def multi(ctx):
    """scores for several columns per variable, and the marginal likelihood"""
    r = ctx.rng
    name = str(r.choice(["local_score_CV_multi", "local_score_marginal_general", "local_score_marginal_multi"], p=[.6, .2, .2]))
    n = int(r.integers(2, 4)) if name == "local_score_CV_multi" else 2
    X, _ = gen.sem_linear(r, n, gen.rand_dag(r, n), 20 if n > 2 else 14, noise="gauss")
    lab = {i: i for i in range(n)}
    par = None
    eff = {"kfold": 10, "lambda": .01, "dlabel": lab} if name == "local_score_CV_multi" else {"dlabel": lab} if name.endswith("multi") else {}
    if name == "local_score_CV_multi" and r.random() < .5:
        par = eff = {"kfold": 4, "lambda": .1, "dlabel": {i: [i] for i in range(n)}}
    fun = {"local_score_CV_multi": LSF.local_score_cv_multi, "local_score_marginal_general": LSF.local_score_marginal_general,
           "local_score_marginal_multi": LSF.local_score_marginal_multi}[name]
    search(ctx, str(r.choice(["boss", "grasp"])), X, fun, name, par, eff)


def truth(ctx):
    r = ctx.rng
    n = int(r.integers(3, 7))
    for _ in range(30):
        E = gen.rand_dag(r, n)
        X, C, _ = gen.exact_cov_data(r, n, E, N=20000)
        if gen.faithful_cov(C, n, E, tol=.05):
            break
    else:
        return ctx.event("unfaithful")
    names = gen.names(r, n)
    w = ref.cpdag(n, E)
    for algo, f, kw in (("grasp", grasp, {"depth": n}), ("grasp", grasp, {"depth": n + 1})):
        perm = r.permutation(n)
        G = f(X[:, perm], "local_score_BIC_from_cov", verbose=False, node_names=[names[p] for p in perm], **kw)
        D, U, bad = lib.dir_und(G.graph)
        got = ({(int(perm[a]), int(perm[b])) for a, b in D}, {frozenset(int(perm[a]) for a in u) for u in U})
        ctx.check(got == w and not bad, f"{algo}/truth", lambda: f"DAG {lib.E_(E)}: got {lib.show(*got)}, should be {lib.show(*w)}")
        ctx.event("truths")
    ctx.state(tuple(sorted(E)))
    ctx.note({"n": n, "E": lib.E_(E)})


STREAMS = {
    "tree": Stream(tree, 150, 5000, need={"traces": 1000}),
    "boss": Stream(boss_search, 150, 5000, need={"searches": 100}),
    "grasp": Stream(grasp_search, 200, 6000, need={"searches": 100}),
    "multi": Stream(multi, 20, 500, need={"searches": 10}),
    "truth": Stream(truth, 80, 3000, need={"truths": 100}, timeout=200, steps=200_000_000),
}
