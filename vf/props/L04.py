"""Interventions, path enumeration and the LiNGAM helper functions against their definitions."""
import re

import numpy as np
from sklearn.linear_model import LinearRegression, LogisticRegression

from causallearn.search.FCMBased import lingam
from causallearn.search.FCMBased.lingam import utils as U

from .. import gen
from .. import lingam_ref as R
from ..core import Stream

ID = "L04"
RULE = ("a case = one linear causal model with data and prediction models, all targets and interventions; or one matrix for the helpers; non-trivial when it has an edge; "
        "distinct by matrix and effects")
ASSUMPTIONS = ["expectations under an intervention are computed by inverting the modified structural equations", "the effect of an intervention with a classifier is taken on p(class 0) - p(class 1)"]


class Curved:
    """a prediction model that is not linear"""

    def __init__(self, w):
        self.w = w

    def predict(self, X):
        z = np.asarray(X) @ self.w
        return z ** 2 + np.sin(z)


def do(B, Ex, i, v):
    n = len(B)
    En = Ex - B @ Ex
    Bd = B.copy()
    Bd[i] = 0
    En[i] = v
    return np.linalg.solve(np.eye(n) - Bd, En)


def interventions(ctx):
    r = ctx.rng
    n = int(r.integers(2, 6))
    N = int(r.choice([40, 200]))
    E = gen.rand_dag(r, n)
    X, W = gen.sem_linear(r, n, E, N, noise="uniform", lo=.6, hi=1.5, offset=True)
    kind = ["direct", "array", "list", "cancel"][ctx.index % 4]
    if kind == "direct":
        src = lingam.DirectLiNGAM().fit(X)
        B = src.adjacency_matrix_
    else:
        B = W.copy()
        if kind == "cancel" and n > 2:
            # a variable whose incoming coefficients cancel is not a root
            p = [int(v) for v in r.permutation(n)]
            c = float(r.uniform(.5, 1.5))
            B = np.zeros((n, n))
            B[p[1], p[0]] = .7
            B[p[2], p[0]], B[p[2], p[1]] = c, -c
            for k in range(3, n):
                B[p[k], p[int(r.integers(0, k))]] = float(r.uniform(.5, 1.5))
            X = r.normal(size=(N, n)) @ np.linalg.inv(np.eye(n) - B).T + r.normal(size=n)
        src = B.tolist() if kind == "list" else B
    ctx.event("model:" + kind)
    keep = B.copy()
    Ex, sd = X.mean(0), X.std(0)
    ctx.note({"n": n, "model": kind, "edges": sorted(E)})
    for _ in range(2):
        t = int(r.integers(n))
        rest = [v for v in range(n) if v != t]
        lin = LinearRegression().fit(X[:, rest], X[:, t])
        log = LogisticRegression().fit(X[:, rest], (X[:, t] > np.median(X[:, t])).astype(int))
        cur = Curved(r.normal(size=n - 1))
        for name, pm, f in (("linear", lin, lambda z: float(lin.predict(z[None])[0])), ("curved", cur, lambda z: float(cur.predict(z[None])[0])),
                            ("logistic", log, lambda z: float(np.subtract(*log.predict_proba(z[None])[0])))):
            ce = lingam.CausalEffect(src)
            ok, e = ctx.call("estimate_effects_on_prediction", ce.estimate_effects_on_prediction, X, t, pm)
            if not ok:
                return
            want = np.array([[abs(f(do(B, Ex, i, Ex[i])[rest]) - f(do(B, Ex, i, Ex[i] + s * sd[i])[rest])) for s in (1, -1)] for i in range(n)])
            ctx.event("effects:" + name)
            ctx.check(np.shape(e) == (n, 2) and np.allclose(e, want, atol=1e-8, rtol=1e-6), "effects/" + name, lambda: f"target {t}: {np.round(e, 4).tolist()} should be {want.round(4).tolist()}")
        for i in rest:
            wanted = float(r.normal() * 3)
            g = lambda v: float(lin.coef_ @ do(B, Ex, i, v)[rest] + lin.intercept_)
            if abs(g(1.0) - g(0.0)) < 1e-4:
                continue
            ce = lingam.CausalEffect(src)
            ok, v = ctx.call("estimate_optimal_intervention", ce.estimate_optimal_intervention, X, t, lin, i, wanted)
            if not ok:
                return
            v = float(np.ravel(v)[0])
            ctx.event("optimal")
            ctx.check(abs(g(v) - wanted) < 1e-6 * (1 + abs(v)), "optimal", lambda: f"do(x{i}={v}) gives {g(v)} for target {t}, wanted {wanted}; B {B.tolist()}")
            # the same object asked again
            ok, v2 = ctx.call("estimate_optimal_intervention", ce.estimate_optimal_intervention, X, t, lin, i, wanted)
            ctx.check(ok and np.allclose(v2, v), "optimal/second-call")
    if E:
        ctx.state(kind, B.round(6).tolist(), np.round(e, 6).tolist())
    ctx.check(np.array_equal(keep, B), "model-changed")
    for bad in (np.ones(3), np.ones((2, 3)), np.array([[0, 1.0], [1.0, 0]]), "x"):
        try:
            lingam.CausalEffect(bad).estimate_effects_on_prediction(X, 0, LinearRegression().fit(X[:, 1:], X[:, 0]))
            ctx.fail("bad-model-accepted", str(bad))
        except ValueError:
            ctx.event("refused")


def paths(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    B = np.zeros((n, n))
    for a, b in gen.rand_dag(r, n):
        B[b, a] = r.choice([-1, 1]) * r.choice([.1, .5, 2.0]) * (1 + .1 * r.random())
    if r.random() < .3:
        i, j = (int(v) for v in r.choice(n, 2, replace=False))
        B[i, j] = B[j, i] = np.nan
    keep = B.copy()
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            for thr in (0.0, .3, 1.0):
                ok, g = ctx.call("find_all_paths", U.find_all_paths, B, a, b, **({} if thr == 0 else {"min_causal_effect": thr}))
                if not ok:
                    return
                want = R.paths(B, a, b, thr)
                got = {tuple(int(v) for v in p): float(e) for p, e in zip(*g)}
                ctx.event("paths", len(want))
                ctx.event("long_paths", sum(len(p) > 3 for p, _ in want))
                ctx.check(len(got) == len(g[0]) == len(g[1]) and set(got) == {p for p, _ in want} and all(abs(got[p] - e) < 1e-12 for p, e in want), "paths",
                          lambda: f"{a}->{b} over {thr}: {got} should be {want}")
    ctx.check(np.array_equal(keep, B, equal_nan=True), "matrix-changed")
    A = np.nan_to_num(B)
    ok, s = ctx.call("get_sink_variables", U.get_sink_variables, A)
    ok2, x = ctx.call("get_exo_variables", U.get_exo_variables, A)
    if ok and ok2:
        ctx.event("sinks")
        ctx.check(sorted(s) == [i for i in range(n) if not any(A[j, i] for j in range(n))], "sinks", lambda: f"{s} of {A.tolist()}")
        ctx.check(sorted(x) == [i for i in range(n) if not any(A[i, j] for j in range(n))], "exogenous", lambda: f"{x} of {A.tolist()}")
    ctx.state(A.round(6).tolist())
    # no opposite entries: a sum of signed coefficients is no test
    C = np.zeros((3, 3))
    C[2, 0], C[2, 1] = 1.0, -1.0
    ctx.check(U.get_exo_variables(C) == [0, 1] and U.get_sink_variables(C.T) == [0, 1], "exogenous/cancel")


def remove(ctx):
    r = ctx.rng
    n = int(r.integers(2, 6))
    X = gen.sem_linear(r, n, gen.rand_dag(r, n), int(r.choice([30, 100])), noise="exp", lo=.5, hi=1.5, offset=True)[0]
    k = int(r.integers(1, n))
    F = [int(v) for v in r.choice(n, k, replace=False)]
    X0 = X.copy()
    ok, Y = ctx.call("remove_effect", U.remove_effect, X, F)
    if not ok:
        return
    ctx.event("removals")
    ctx.state(F, Y.round(6).tolist())
    ctx.check(np.array_equal(X, X0), "remove/data-changed")
    for v in range(n):
        if v in F:
            ctx.check(np.array_equal(Y[:, v], X[:, v]), "remove/feature-changed", f"feature {v} of {F}")
        else:
            A = np.column_stack([np.ones(len(X)), X[:, F]])
            w = X[:, v] - A @ np.linalg.lstsq(A, X[:, v], rcond=None)[0]
            ctx.check(np.allclose(Y[:, v], w, atol=1e-8), "remove/residual", lambda: f"variable {v} without {F}")
    # adaptive lasso coefficients
    t = int(r.integers(n))
    P = [v for v in range(n) if v != t]
    r.shuffle(P)
    P = P[:max(1, int(r.integers(1, n)))]
    ok, c = ctx.call("predict_adaptive_lasso", U.predict_adaptive_lasso, X, P, t)
    if ok:
        w = R.adaptive_lasso(X, P, t)
        ctx.event("lassos")
        ctx.check(np.allclose(c, w, atol=1e-8 * (1 + np.abs(w).max())), "adaptive-lasso", lambda: f"{P}->{t}: {c}, should be {w}")


EDGE = re.compile(r'^\t*"?([^"\t]+?)"? -> "?([^"\[]+?)"? ?(\[.*\])?$')


def dot(ctx):
    r = ctx.rng
    n = int(r.integers(2, 6))
    B = np.zeros((n, n))
    for a, b in gen.rand_dag(r, n):
        B[b, a] = r.choice([-1, 1]) * r.choice([.005, .05, .5, 2.0]) * (1 + .3 * r.random())
    both = []
    if r.random() < .4:
        i, j = sorted(int(v) for v in r.choice(n, 2, replace=False))
        B[i, j] = B[j, i] = np.nan
        both = [(i, j)]
    labels = None if r.random() < .5 else [f"n{v}" for v in r.permutation(n)]
    nm = labels or [f"x{i}" for i in range(n)]
    lim = [None, .02, .3][int(r.integers(3))]
    kw = {} if lim is None else {"lower_limit": lim}
    lim = .01 if lim is None else lim
    pred = None
    mode = int(r.integers(4))
    if mode:
        pred = [int(v) for v in r.choice(n, int(r.integers(1, n + 1)), replace=False)]
        kw["prediction_feature_indices"] = pred
        pc = r.choice([.001, -.7, 1.2], size=len(pred)).tolist()
        if mode == 2:
            kw["prediction_coefs"] = pc
        if mode == 3:
            kw["prediction_feature_importance"] = pc
    ok, d = ctx.call("make_dot", U.make_dot, B, labels=labels, **kw)
    if not ok:
        return
    got = {}
    dup = False
    for line in d.source.splitlines():
        if "->" in line:
            m = EDGE.match(line)
            ctx.check(m is not None, "dot/unparsed", line)
            if m:
                at = dict(re.findall(r'(\w+)=("[^"]*"|\S+?)(?=[ \]])', m.group(3) or ""))
                key = (m.group(1).strip(), m.group(2).strip(), at.get("dir"))
                dup |= key in got
                got[key] = at.get("label", "").strip('"')
    want = {}
    for i in range(n):
        for j in range(n):
            if not np.isnan(B[i, j]) and abs(B[i, j]) > lim:
                want[(nm[j], nm[i], None)] = f"{B[i, j]:.2f}"
    for i, j in both:
        want[(nm[i], nm[j], "both")] = ""
    if pred:
        for q, v in enumerate(pred):
            if mode == 2 and abs(pc[q]) <= lim:
                continue
            want[(nm[v], "Y(pred)", None)] = f"{pc[q]:.2f}" if mode == 2 else (f"({pc[q]})" if mode == 3 else "")
    norm = lambda k: (k[0], k[1], k[2]) if k[2] is None else tuple(sorted(k[:2])) + (k[2],)
    g2, w2 = {norm(k): v for k, v in got.items()}, {norm(k): v for k, v in want.items()}
    ctx.event("dots")
    ctx.event("double_headed", len(both))
    ctx.state(sorted(map(str, w2.items())))
    ctx.check(not dup and g2 == w2, "dot/edges", lambda: f"{g2} should be {w2}; limit {lim}")
    ctx.check(all(re.search(r'^\t*"?%s"?\s*(\[|$)' % re.escape(x), d.source, re.M) for x in nm), "dot/nodes", lambda: d.source)
    for bad in ({"labels": ["a"] * (n + 1)}, {"prediction_feature_indices": [0], "prediction_coefs": [1, 2]}, {"prediction_feature_indices": [0], "prediction_feature_importance": []}):
        try:
            U.make_dot(B, **bad)
            ctx.fail("dot/bad-argument-accepted", str(bad))
        except ValueError:
            ctx.event("refused")
    try:
        U.make_dot(np.zeros((2, 3)))
        ctx.fail("dot/bad-argument-accepted", "not square")
    except ValueError:
        ctx.event("refused")


STREAMS = {
    "interventions": Stream(interventions, 120, 3000, need=["effects:linear", "effects:curved", "effects:logistic", "optimal", "model:cancel", "model:direct", "refused"]),
    "paths": Stream(paths, 100, 3000, need=["paths", "long_paths", "sinks"]),
    "remove": Stream(remove, 120, 3000, need=["removals", "lassos"]),
    "dot": Stream(dot, 150, 3000, need=["dots", "double_headed", "refused"]),
}
