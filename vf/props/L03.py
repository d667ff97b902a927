"""Bootstrap results: counts, probabilities, effects and paths equal a direct count; bootstrap() records what was fitted."""
import contextlib
import io
import re
from collections import Counter, defaultdict

import numpy as np

from causallearn.search.FCMBased import lingam
from causallearn.search.FCMBased.lingam import utils as U

from .. import gen
from .. import lingam_ref as R
from ..core import Stream

ID = "L03"
RULE = ("a case = one bootstrap result (made from arrays, or by running bootstrap()) with all its aggregates under several thresholds; non-trivial when at least two "
        "different graphs occur; distinct by the recorded matrices")
ASSUMPTIONS = ["coefficients are kept away from the threshold, so that the treatment of exact equality is not decided",
               "the effect of a direction is the median over the samples whose effect is not zero"]


def matrices(r, n, k, lags=0, nan=False, cyclic=False):
    """a few patterns repeated with noise, so that counts above one occur"""
    pats = []
    for _ in range(int(r.integers(1, 4))):
        pats.append((gen.rand_dag(r, n), [r.random((n, n)) < .3 for _ in range(lags)], r.choice([-1, 1], size=(n, n * (1 + lags)))))
    out = np.zeros((k, n, n * (1 + lags)))
    for s in range(k):
        E, L, sg = pats[int(r.integers(len(pats)))]
        for a, b in E:
            out[s, b, a] = 1
        for q, m in enumerate(L):
            out[s, :, n * (q + 1):n * (q + 2)] = m
        out[s] *= sg * r.choice([.05, .4, 1.5], size=sg.shape) * (1 + .1 * r.random(sg.shape))
        if nan and n > 1 and r.random() < .5:
            i, j = (int(v) for v in r.choice(n, 2, replace=False))
            out[s, i, j] = out[s, j, i] = np.nan
    return out


def top(ctx, key, got, want, limit):
    """got: [(item, count)] in reported order; want: Counter"""
    ctx.event("tables")
    c = [k for _, k in got]
    ok = c == sorted(c, reverse=True) and len(set(i for i, _ in got)) == len(got) and all(want.get(i) == k for i, k in got)
    full = sorted(want.values(), reverse=True)
    ok = ok and c == (full if limit is None else full[:limit])
    ctx.check(ok, key, lambda: f"reported {got}, counted {dict(want)}, limit {limit}")


def thresholds(r):
    return [None, .2, float(r.choice([.9, 3.0]))]


def count_checks(ctx, key, A, cdc, dagc, limit, thr, split):
    A = np.nan_to_num(A)
    t = 0 if thr is None else thr
    dirs, dags = Counter(), Counter()
    for a in A:
        it = [(j, i) + ((int(np.sign(a[i, j])),) if split else ()) for i, j in zip(*np.where(np.abs(a) > t))]
        dirs.update((int(x[0]), int(x[1])) + x[2:] for x in it)
        dags[frozenset((int(x[0]), int(x[1])) + x[2:] for x in it)] += 1
    cols = ["from", "to"] + (["sign"] if split else [])
    ctx.check(set(cdc) == set(cols + ["count"]) and len({len(v) for v in cdc.values()}) == 1, key + "/directions/shape", lambda: str(cdc)[:300])
    top(ctx, key + "/directions", [(tuple(int(v) for v in t), c) for *t, c in zip(*[cdc[c] for c in cols], cdc["count"])], dirs, limit)
    got = []
    for d, c in zip(dagc["dag"], dagc["count"]):
        got.append((frozenset(tuple(int(v) for v in t) for t in zip(*[d[c2] for c2 in cols])), c))
        ctx.check(set(d) == set(cols) and len({len(v) for v in d.values()}) == 1, key + "/dags/shape", lambda: str(d)[:300])
    top(ctx, key + "/dags", got, dags, limit)


def median_nonzero(v):
    v = v[np.abs(v) > 0]
    return float(np.median(v))


def effect_checks(ctx, key, T, out, thr):
    t = 0 if thr is None else thr
    want = {}
    for i in range(T.shape[1]):
        for j in range(T.shape[2]):
            p = np.mean(np.abs(np.nan_to_num(T[:, i, j])) > t)
            if p > 0:
                want[(j, i)] = (p, median_nonzero(T[:, i, j]))
    got = {(int(a), int(b)): (p, e) for a, b, e, p in zip(out["from"], out["to"], out["effect"], out["probability"])}
    ctx.event("tables")
    ctx.check(len(got) == len(out["from"]) and set(got) == set(want) and all(abs(got[k][0] - want[k][0]) < 1e-12 and abs(got[k][1] - want[k][1]) < 1e-9 for k in want)
              and out["probability"] == sorted(out["probability"], reverse=True), key, lambda: f"{got} should be {want}")


def printed(ctx, res, n, k, A):
    cdc = res.get_causal_direction_counts(split_by_causal_effect_sign=True)
    dagc = res.get_directed_acyclic_graph_counts()
    labels = [f"v{i}" for i in range(A.shape[2])]
    for lab in (None, labels):
        nm = lab or [f"x{i}" for i in range(A.shape[2])]
        with contextlib.redirect_stdout(io.StringIO()) as s:
            U.print_causal_directions(cdc, k, labels=lab)
        want = [(nm[t], nm[f], "b>0" if g > 0 else "b<0", f"{100 * c / k:.1f}") for f, t, c, g in zip(cdc["from"], cdc["to"], cdc["count"], cdc["sign"])]
        got = [m for m in re.findall(r"(\w+) <--- (\w+) \((b[<>]0)\) \(([\d.]+)%\)", s.getvalue())]
        ctx.event("printed")
        ctx.check(got == want, "print/directions", lambda: f"{got} should be {want}")
        with contextlib.redirect_stdout(io.StringIO()) as s:
            U.print_dagc(dagc, k, labels=lab)
        blocks = re.split(r"DAG\[\d+\]: ", s.getvalue())[1:]
        got = [(b.split("%")[0], re.findall(r"(\w+) <--- (\w+)", b)) for b in blocks]
        want = [(f"{100 * c / k:.1f}", [(nm[t], nm[f]) for f, t in zip(d["from"], d["to"])]) for d, c in zip(dagc["dag"], dagc["count"])]
        ctx.check(got == want, "print/dags", lambda: f"{got} should be {want}")


def arrays(ctx):
    r = ctx.rng
    n, k = int(r.integers(1, 6)), int(r.integers(1, 13))
    lags = int(r.integers(0, 3)) if r.random() < .5 else 0
    A = matrices(r, n, k, lags, nan=lags == 0 and r.random() < .5)
    T = matrices(r, n, k, lags)
    cls = lingam.TimeseriesBootstrapResult if lags else lingam.BootstrapResult
    given = list(A.copy()) if lags and r.random() < .5 else A.copy()
    res = cls(given, T.copy())
    ctx.note({"n": n, "samples": k, "lags": lags})
    if len({np.nan_to_num(a).astype(bool).tobytes() for a in A}) > 1:
        ctx.state(np.round(A, 6).tolist())
    for thr in thresholds(r):
        kw = {} if thr is None else {"min_causal_effect": thr}
        for split in (False, True):
            for limit in (None, int(r.integers(1, 5))):
                lk = {} if limit is None else {"n_directions": limit}
                ld = {} if limit is None else {"n_dags": limit}
                ok1, cdc = ctx.call("get_causal_direction_counts", res.get_causal_direction_counts, split_by_causal_effect_sign=split, **lk, **kw)
                ok2, dagc = ctx.call("get_directed_acyclic_graph_counts", res.get_directed_acyclic_graph_counts, split_by_causal_effect_sign=split, **ld, **kw)
                if not (ok1 and ok2):
                    return
                count_checks(ctx, "counts", A, cdc, dagc, limit, thr, split)
        ok, p = ctx.call("get_probabilities", res.get_probabilities, **kw)
        if ok:
            want = np.mean(np.abs(np.nan_to_num(A)) > (thr or 0), axis=0)
            got = np.hstack(p) if lags else p
            ctx.event("probabilities")
            ctx.check(got.shape == want.shape and np.allclose(got, want), "probabilities", lambda: f"{got.tolist()} should be {want.tolist()}")
            if lags:
                ctx.check(len(p) == 1 + lags, "probabilities/shape", lambda: f"{len(p)} blocks for {lags} lags")
        ok, e = ctx.call("get_total_causal_effects", res.get_total_causal_effects, **kw)
        if ok:
            effect_checks(ctx, "total-effects", T, e, thr)
        if not lags:
            a, b = int(r.integers(n)), int(r.integers(n))
            if a != b:
                path_checks(ctx, res, A, a, b, thr)
    if n > 1:
        printed(ctx, res, n, k, A)
    ctx.check(np.array_equal(res.adjacency_matrices_, A, equal_nan=True) and np.array_equal(res.total_effects_, T), "arrays-changed")
    refuse(ctx, res)


def path_checks(ctx, res, A, a, b, thr):
    ok, g = ctx.call("get_paths", res.get_paths, a, b, **({} if thr is None else {"min_causal_effect": thr}))
    if not ok:
        return
    want = defaultdict(list)
    for m in A:
        m = np.nan_to_num(m)
        for p, e in R.paths(m, a, b, thr or 0.0):
            want[p].append(e)
    want = {p: (len(v) / len(A), float(np.median(v))) for p, v in want.items()}
    got = {tuple(p): (q, e) for p, e, q in zip(g["path"], g["effect"], g["probability"])}
    ctx.event("paths", len(want))
    ctx.check(len(got) == len(g["path"]) and set(got) == set(want) and all(np.allclose(got[p], want[p]) for p in want)
              and g["probability"] == sorted(g["probability"], reverse=True), "paths", lambda: f"{a}->{b} threshold {thr}: {got} should be {want}")


def refuse(ctx, res):
    for f, kw in ((res.get_causal_direction_counts, {"n_directions": 0}), (res.get_causal_direction_counts, {"n_directions": "a"}), (res.get_causal_direction_counts, {"min_causal_effect": 0}),
                  (res.get_directed_acyclic_graph_counts, {"n_dags": 0}), (res.get_directed_acyclic_graph_counts, {"min_causal_effect": -1.0}),
                  (res.get_probabilities, {"min_causal_effect": 0}), (res.get_total_causal_effects, {"min_causal_effect": -.1})):
        try:
            f(**kw)
            ctx.fail("bad-argument-accepted", f"{f.__name__} {kw}")
        except ValueError:
            ctx.event("refused")


def longitudinal_arrays(ctx):
    r = ctx.rng
    n, k, T, lags = int(r.integers(1, 4)), int(r.integers(1, 9)), int(r.integers(2, 4)), int(r.integers(1, 3))
    A = np.stack([matrices(r, n, k, lags) for _ in range(T)], 1)          # k, T, n, n*(1+lags)
    A5 = np.stack(np.split(A, 1 + lags, axis=3), 2)                        # k, T, 1+lags, n, n
    A5[:, 0] = np.nan
    E = matrices(r, n * T, k)
    res = lingam.LongitudinalBootstrapResult(T, A5.copy(), E.copy())
    A = np.concatenate([A5[:, :, q] for q in range(1 + lags)], axis=3)
    ctx.note({"n": n, "samples": k, "timepoints": T, "lags": lags})
    ctx.state(np.nan_to_num(A).round(6).tolist())
    for thr in thresholds(r):
        kw = {} if thr is None else {"min_causal_effect": thr}
        for split in (False, True):
            limit = None if r.random() < .5 else int(r.integers(1, 5))
            lk = {} if limit is None else {"n_directions": limit}
            ld = {} if limit is None else {"n_dags": limit}
            ok1, cdc = ctx.call("get_causal_direction_counts", res.get_causal_direction_counts, split_by_causal_effect_sign=split, **lk, **kw)
            ok2, dagc = ctx.call("get_directed_acyclic_graph_counts", res.get_directed_acyclic_graph_counts, split_by_causal_effect_sign=split, **ld, **kw)
            if not (ok1 and ok2):
                return
            ctx.check(len(cdc) == T and len(dagc) == T, "longitudinal/timepoints")
            for t in range(T):
                count_checks(ctx, "longitudinal", A[:, t], cdc[t], dagc[t], limit, thr, split)
        ok, p = ctx.call("get_probabilities", res.get_probabilities, **kw)
        if ok:
            want = np.mean(np.abs(np.nan_to_num(A5)) > (thr or 0), axis=0)
            ctx.event("probabilities")
            ctx.check(p.shape == want.shape and np.allclose(p, want), "longitudinal/probabilities")
        ok, e = ctx.call("get_total_causal_effects", res.get_total_causal_effects, **kw)
        if ok:
            effect_checks(ctx, "longitudinal/total-effects", E, e, thr)
    refuse(ctx, res)


# ------------------------------------------------------------------ real runs
def recorder(m):
    log, real = [], m.fit

    def fit(X, *a, **k):
        out = real(X, *a, **k)
        am = m.adjacency_matrices_ if hasattr(m, "adjacency_matrices_") else m.adjacency_matrix_
        log.append(([np.array(x) for x in X] if isinstance(X, (list, tuple)) or np.ndim(X) == 3 else np.array(X),
                    [np.array(x) for x in am] if isinstance(am, (list, tuple)) else np.array(am),
                    getattr(m, "causal_order_", None)))
        return out
    m.fit = fit
    return log


def rows_of(ctx, key, S, X, replace=True):
    pool = Counter(map(tuple, X.tolist()))
    draw = Counter(map(tuple, S.tolist()))
    ctx.check(all(v in pool for v in draw), key + "/rows", "a resampled row is not a row of the data")
    if not replace:
        ctx.check(all(pool[v] >= c for v, c in draw.items()), key + "/rows-repeated")
    return draw


def real(ctx):
    r = ctx.rng
    n, N, k = int(r.integers(2, 5)), int(r.choice([60, 120])), int(r.integers(1, 5))
    X = gen.sem_linear(r, n, gen.rand_dag(r, n), N, noise="uniform", lo=.7, hi=1.5)[0]
    kind = ["direct", "ica", "multi", "rcd", "parce", "direct_pk"][ctx.index % 6]
    ctx.note({"model": kind, "n": n, "samples": k})
    if kind == "multi":
        Y = gen.sem_linear(r, n, gen.rand_dag(r, n), N + int(r.integers(0, 30)), noise="exp", lo=.7, hi=1.5)[0]
        m = lingam.MultiGroupDirectLiNGAM()
        data = [X, Y]
    else:
        pk = np.full((n, n), -1)
        pk[0, 1] = 0
        m = {"direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=0), "direct_pk": lambda: lingam.DirectLiNGAM(prior_knowledge=pk),
             "rcd": lambda: lingam.RCD(cor_alpha=.05, ind_alpha=.05, shapiro_alpha=1.0), "parce": lambda: lingam.BottomUpParceLiNGAM(alpha=.05)}[kind]()
        data = X
    keep = [x.copy() for x in data] if kind == "multi" else X.copy()
    log = recorder(m)
    ok, res = ctx.call("bootstrap", m.bootstrap, data, k)
    if not ok:
        return
    ctx.event("bootstrap:" + kind)
    ctx.check(len(log) == k, "bootstrap/number-of-fits", lambda: f"{len(log)} fits for {k} samples")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, data)), "bootstrap/data-changed")
    group = list(zip(res, data, range(2))) if kind == "multi" else [(res, data, None)]
    draws = []
    for rs, D, g in group:
        A = np.array([e[1] if g is None else e[1][g] for e in log])
        ctx.check(np.array_equal(rs.adjacency_matrices_, A, equal_nan=True), "bootstrap/matrices", "the result does not hold the fitted matrices")
        for e in log:
            S = e[0] if g is None else e[0][g]
            ctx.event("resamples")
            ctx.check(kind == "rcd" or S.shape == D.shape, "bootstrap/sample-size", lambda: f"{S.shape} of {D.shape}")
            draws.append(rows_of(ctx, "bootstrap", S, D, kind != "rcd"))
        # total effects exist only along the fitted order, and are regression coefficients of the effect on cause and parents
        for s, e in enumerate(log):
            B, order = A[s], e[2]
            S = e[0] if g is None else e[0][g]
            T = rs.total_effects_[s]
            ctx.check(T.shape == (n, n) and np.all(np.diag(T) == 0), "bootstrap/effects-shape")
            if order is not None and not any(isinstance(v, (list, np.ndarray)) for v in order):
                order = [int(v) for v in order]
                for x, a in enumerate(order):
                    for y, b in enumerate(order):
                        if x >= y:
                            ctx.check(T[b, a] == 0, "bootstrap/effect-against-order", lambda: f"{a}->{b} order {order}")
                        else:
                            P = [a] + [v for v in range(n) if B[a, v] != 0 and not np.isnan(B[a, v])]
                            want = [R.adaptive_lasso(Z, P, b)[0] for Z in (D, S)]
                            ctx.event("bootstrap_effects")
                            ctx.check(any(abs(T[b, a] - w) < 1e-6 * (1 + abs(w)) for w in want), "bootstrap/effects", lambda: f"{a}->{b}: {T[b, a]}, should be {want}")
    if k > 1:
        ctx.check(len({tuple(sorted(d.items())) for d in draws[:k]}) > 1, "bootstrap/same-sample", "all resamples are equal")
        ctx.state(kind, np.round(np.nan_to_num(A), 8).tolist())
    for bad in (0, -1, 1.5, "a"):
        try:
            m.bootstrap(data, bad)
            ctx.fail("bootstrap/bad-number-accepted", str(bad))
        except ValueError:
            ctx.event("refused")


def series(r, n, N, lags=1):
    from . import L05
    return L05.simulate_var(r, n, lags, N)[0]


def m_pruned(m):
    return getattr(m, "_prune", True)


def coefficients(am):
    """reduced-form coefficients of structural matrices (instantaneous first)"""
    inv = np.linalg.inv(np.eye(len(am[0])) - am[0])
    return [inv @ b for b in am[1:]]


def generated(ctx, key, S, ar, ma, resid, shape):
    """S is the series the coefficients make of rows of resid; gives the rows"""
    ctx.check(S.shape == shape, key + "/sample-size", lambda: f"{S.shape}")
    s, E = max(len(ar), len(ma)), np.zeros(S.shape)
    for t in range(len(S)):
        E[t] = S[t]
        if t >= s:
            E[t] -= sum(a @ S[t - j - 1] for j, a in enumerate(ar)) + sum((m @ E[t - j - 1] for j, m in enumerate(ma)), np.zeros(S.shape[1]))
    # errors of the reconstruction grow along the series where the MA part is not invertible: only its start then
    last = len(S) if not ma else min(len(S), 40)
    from scipy.spatial import cKDTree
    d, i = cKDTree(resid).query(E[:last])
    scale = np.abs(resid).max()
    ctx.event("generated_rows", last)
    ctx.check(bool(np.all(d < 1e-6 * scale)), key + "/generated", lambda: f"row {int(np.argmax(d))} of the series is not made of the model and one of its residuals (off by {d.max():.3g})")
    ctx.check(len(set(i.tolist())) > len(i) / 4, key + "/residuals-drawn", "few residuals were drawn")
    return E


def varma_series(ctx, r, n, k):
    from . import L05
    p, q = int(r.integers(1, 3)), int(r.integers(1, 3))
    X, nu, _, B0, Bk, Om, A, Th = L05.simulate_varma(r, n, p, q, int(r.choice([80, 150])))
    if max(abs(np.linalg.eigvals(L05.companion(Th)))) > .9:
        return
    kw = dict(order=(p, q), ar_coefs=np.array(A), ma_coefs=np.array(Th))
    m = lingam.VARMALiNGAM(**kw)
    log, real, resids = recorder(m), m.fit, []

    def fit(Y):
        out = real(Y)
        resids.append(np.array(m.residuals_))
        return out
    m.fit = fit
    ok, res = ctx.call("bootstrap", m.bootstrap, X, k)
    if not ok:
        return
    ctx.check(len(log) == k + 1 and np.array_equal(log[0][0], X), "bootstrap/number-of-fits", lambda: f"{len(log)} fits for {k} samples")
    for s in range(k):
        ctx.event("resamples")
        psi, om = log[s + 1][1]
        ctx.check(np.array_equal(res.adjacency_matrices_[s], np.concatenate([*psi, *om], axis=1)), "bootstrap/matrices")
        E = generated(ctx, "bootstrap/varma", log[s + 1][0], A, Th, resids[0], X.shape)
    T = np.array(res.total_effects_)
    if not ctx.check(T.shape == (k, n, n * (1 + p)), "bootstrap/effects-shape", lambda: str(T.shape)):
        return
    S, order, psi = log[-1][0], [int(v) for v in log[-1][2]], log[-1][1][0]
    # E is only known for the start of the series: rows from there on move the estimate a little
    ee = E @ (np.eye(n) - psi[0]).T
    exact = np.abs(ee).max() < 20 * np.abs(resids[0]).max()
    for b in range(n):
        for a in range(n):
            for lag in range(p + 1):
                v = T[-1, b, a + n * lag]
                if lag == 0 and order.index(a) >= order.index(b):
                    ctx.check(v == 0, "bootstrap/effect-against-order", lambda: f"{a}->{b} order {order}")
                elif exact:
                    w = m.estimate_total_effect(S, ee, a, b, lag)
                    ctx.event("bootstrap_effects")
                    ctx.check(abs(v - w) < 1e-4 * (1 + abs(w)), "bootstrap/lagged-effects", lambda: f"{a}->{b} lag {lag}: {v}, should be {w}")
    # a bootstrap leaves the model's settings alone
    if ctx.index % 9 == 2:
        Y = L05.simulate_varma(r, 2, 1, 0, 80)[0]
        models = [lingam.VARMALiNGAM(order=(1, 0), criterion="bic", max_iter=8) for _ in range(2)]
        models[0].bootstrap(X[:, :2], 1)
        for f in models:
            f.fit(Y)
        ctx.event("estimated_then_bootstrap")
        ctx.check(all(np.array_equal(a, b) for a, b in zip(*[f.adjacency_matrices_ for f in models])), "bootstrap/settings-changed", "after a bootstrap the model fits other data differently than a new one")
    fresh = lingam.VARMALiNGAM(**kw)
    np.random.seed(3)
    fresh.fit(X)
    np.random.seed(3)
    m.fit(X)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(m.adjacency_matrices_, fresh.adjacency_matrices_)), "bootstrap/settings-changed", "after a bootstrap the model fits the data differently than a new one")
    pv = m.get_error_independence_p_values()
    e = m.residuals_ @ (np.eye(n) - m.adjacency_matrices_[0][0]).T
    from causallearn.search.FCMBased.lingam.hsic import hsic_test_gamma
    for a in range(n):
        for b in range(n):
            w = 0 if a == b else hsic_test_gamma(e[:, [min(a, b)]], e[:, [max(a, b)]])[1]
            ctx.event("error_p_values")
            ctx.check(abs(pv[a, b] - w) < 1e-9, "varma/p-values", lambda: f"({a},{b}): {pv[a, b]}, should be {w}")
    ctx.state(np.round(T, 8).tolist())


def real_series(ctx):
    """time series and longitudinal bootstraps"""
    r = ctx.rng
    kind = ["var", "long", "varma"][ctx.index % 3]
    n, k = int(r.integers(2, 4)), int(r.integers(1, 4))
    ctx.note({"model": kind, "n": n, "samples": k})
    if kind == "varma":
        varma_series(ctx, r, n, k)
        return ctx.event("bootstrap:" + kind)
    if kind == "var":
        lags = int(r.integers(1, 3))
        X = series(r, n, int(r.choice([80, 150])), lags)
        fitted = r.random() < .5
        m = lingam.VARLiNGAM(lags=lags + (2 if fitted else 0), criterion="bic" if fitted else None, prune=bool(r.random() < .5))
        if fitted:      # the bootstrap of a fitted model keeps the number of lags that was selected
            m.fit(X)
            lags = len(m.adjacency_matrices_) - 1
        before = (m._lags, m._init_lags, m._criterion) if all(hasattr(m, a) for a in ("_lags", "_init_lags", "_criterion")) else None
        log = recorder(m)
        ok, res = ctx.call("bootstrap", m.bootstrap, X, k)
        if not ok:
            return
        ctx.check(len(log) == k + 1, "bootstrap/number-of-fits", lambda: f"{len(log)} fits for {k} samples")
        for s, e in enumerate(log[1:]):
            ctx.event("resamples")
            ctx.check(np.array_equal(res.adjacency_matrices_[s], np.concatenate(list(e[1]), axis=1)), "bootstrap/matrices")
        # the first fit is of the data, the others of series its model generates from its own residuals
        ar, resid = coefficients(log[0][1]), None
        if not m_pruned(m):
            resid = np.array([X[t] - sum(ar[j] @ X[t - j - 1] for j in range(lags)) for t in range(lags, len(X))])
            for e in log[1:]:
                generated(ctx, "bootstrap/var", e[0], ar, [], resid, X.shape)
        if r.random() < .5:
            Y = series(r, n, len(X), 1)
            pr = m_pruned(m)
            fresh = lingam.VARLiNGAM(lags=1, criterion="bic", prune=pr).fit(Y)
            used = lingam.VARLiNGAM(lags=1, criterion="bic", prune=pr)
            used.bootstrap(X, 1)
            used.fit(Y)
            ctx.check(np.array_equal(fresh.adjacency_matrices_, used.adjacency_matrices_), "bootstrap/settings-changed", "after a bootstrap the model fits other data differently than a new one")
        if before:
            ctx.check(before[1:] == (m._init_lags, m._criterion), "bootstrap/settings-changed", lambda: f"{before} {(m._init_lags, m._criterion)}")
        T = np.array(res.total_effects_)
        ctx.check(T.shape == (k, n, n * (1 + lags)), "bootstrap/effects-shape", lambda: str(T.shape))
        # each lag has its own columns: recompute with the model fitted last
        S, order = log[-1][0], [int(v) for v in log[-1][2]]
        for b in order:
            for a in range(n):
                for lag in range(0, lags + 1):
                    w = 0.0
                    if lag or order.index(a) < order.index(b):
                        w = m.estimate_total_effect(S, a, b, lag) if lag else m.estimate_total_effect(S, a, b)
                    elif a == b:
                        w = 0.0
                    if lag and order.index(b) == 0 and T[-1, b, a + n * lag] == 0:
                        continue
                    ctx.event("bootstrap_effects")
                    ctx.check(abs(T[-1, b, a + n * lag] - w) < 1e-9 * (1 + abs(w)), "bootstrap/lagged-effects", lambda: f"{a}->{b} lag {lag}: {T[-1, b, a + n * lag]}, should be {w}")
        ctx.state(np.round(T, 8).tolist())
    else:
        t = int(r.integers(2, 4))
        from . import L05
        Xs = L05.simulate_long(r, n, t, 120)[0]
        m = lingam.LongitudinalLiNGAM(n_lags=int(r.integers(1, 3)))
        log = recorder(m)
        ok, res = ctx.call("bootstrap", m.bootstrap, Xs, k)
        if not ok:
            return
        ctx.check(len(log) == k, "bootstrap/number-of-fits", lambda: f"{len(log)} fits for {k} samples")
        W = np.concatenate(Xs, axis=1)
        for s, e in enumerate(log):
            ctx.event("resamples")
            ctx.check(np.array_equal(res.adjacency_matrices_[s], e[1], equal_nan=True), "bootstrap/matrices")
            rows_of(ctx, "bootstrap/longitudinal", np.concatenate(list(e[0]), axis=1), W)
        # the last model is still there: its effects go to the rows and columns of their time points
        T, orders, first = np.array(res.total_effects_)[-1], [list(map(int, o)) if o is not None and not np.isscalar(o) and not np.any(np.isnan(np.asarray(o, float))) else None for o in m.causal_orders_], None
        ctx.check(T.shape == (t * n, t * n), "bootstrap/effects-shape", lambda: str(T.shape))
        for ft in range(t):
            for a in range(n):
                for tt in range(t):
                    for b in range(n):
                        v = T[tt * n + b, ft * n + a]
                        if orders[ft] is None or tt < ft or (tt == ft and orders[ft].index(a) >= orders[ft].index(b)):
                            ctx.check(v == 0 or orders[ft] is None, "bootstrap/longitudinal-effects", lambda: f"{a}@{ft}->{b}@{tt}: {v}, should be 0")
                            continue
                        w = m.estimate_total_effect(Xs, ft, a, tt, b)
                        ctx.event("bootstrap_effects")
                        ctx.check(abs(v - w) < 1e-9 * (1 + abs(w)), "bootstrap/longitudinal-effects", lambda: f"{a}@{ft}->{b}@{tt}: {v}, should be {w}")
        ctx.state(np.nan_to_num(np.round(np.array(res.adjacency_matrices_), 8)).tolist())
    ctx.event("bootstrap:" + kind)


STREAMS = {
    "arrays": Stream(arrays, 300, 8000, need=["tables", "paths", "probabilities", "printed", "refused"]),
    "longitudinal": Stream(longitudinal_arrays, 100, 2000, need=["tables", "probabilities", "refused"]),
    "real": Stream(real, 48, 1000, need=["bootstrap:direct", "bootstrap:ica", "bootstrap:multi", "bootstrap:rcd", "bootstrap:parce", "resamples", "bootstrap_effects"], timeout=120),
    "series": Stream(real_series, 36, 600, need=["bootstrap:var", "bootstrap:long", "bootstrap:varma", "bootstrap_effects", "generated_rows", "error_p_values"], timeout=120),
}
