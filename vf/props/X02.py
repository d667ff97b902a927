"""Options that say nothing: verbosity, progress bars, empty knowledge, default names and bounds that do not bind change no result."""
import contextlib
import io
import logging
import random
import warnings

import numpy as np

from causallearn.graph.GraphNode import GraphNode
from causallearn.search.ConstraintBased.CDNOD import cdnod
from causallearn.search.ConstraintBased.FCI import fci
from causallearn.search.ConstraintBased.PC import pc
from causallearn.search.FCMBased import lingam
from causallearn.search.PermutationBased.BOSS import boss
from causallearn.search.PermutationBased.GRaSP import grasp
from causallearn.search.ScoreBased.ExactSearch import bic_exact_search
from causallearn.search.ScoreBased.GES import ges
from causallearn.utils.FAS import fas
from causallearn.utils.PCUtils import SkeletonDiscovery
from causallearn.utils.PCUtils.BackgroundKnowledge import BackgroundKnowledge
from causallearn.utils.cit import CIT

from .. import gen, lib, oracles
from ..core import Stream
from .C01 import CONFIGS

ID = "X02"
RULE = ("a case = one data set or one table of independence answers (right or contradictory) and one method, run plainly and again with options that mean the same "
        "(verbose, progress bar, empty knowledge, default names, bounds that do not bind); non-trivial when the result has an edge; distinct by method and result")
ASSUMPTIONS = ["methods that draw random numbers are compared under equal seeds of the global generators", "floating-point results are compared with relative tolerance 1e-9"]


@contextlib.contextmanager
def captured():
    """what is printed and logged, so that the code that reports really runs"""
    out, err = io.StringIO(), io.StringIO()
    h = logging.StreamHandler(out)
    root = logging.getLogger("causallearn")
    level = root.level
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        root.removeHandler(h)
        root.setLevel(level)


def graph(G):
    return [v.get_name() for v in G.get_nodes()], G.graph.tolist(), sorted((str(e), sorted(str(p) for p in e.properties)) for e in G.get_graph_edges())


def seps(s):
    return {(int(a), int(b)): sorted(map(repr, sorted(int(x) for x in v) if v is not None and not any(isinstance(x, tuple) for x in v) else sorted(v)))
            for (a, b), v in s.items() if v is not None} if isinstance(s, dict) else [[repr(v) for v in row] for row in s]


def cg_result(cg):
    return graph(cg.G), seps(cg.sepset)


def fresh(spec):
    spec.log = []
    return spec


def noisy(r, n, lo=None):
    E = gen.rand_dag(r, n)
    while len(E) > 12:
        E = gen.rand_dag(r, n)
    return E, oracles.NoisySpec(n, E, alpha=.05, flip=float(r.choice([0, .05, .15, .3])), salt=int(r.integers(1 << 30)))


def compare(ctx, key, spec, run, variants):
    """run(**options) under each set of options: same result, same questions in the same order"""
    def one(opts):
        if spec is not None:
            spec.log = []
        np.random.seed(7)
        random.seed(7)
        with captured() as (out, err):
            res = run(**opts)
        return res, list(spec.log) if spec is not None else None, out.getvalue(), err.getvalue()
    ok, plain = ctx.call(key, one, {})
    if not ok:
        return None
    ctx.event("plain_runs")
    for name, opts in variants:
        ok, other = ctx.call(key + "/" + name, one, opts)
        if not ok:
            continue
        ctx.event("variants:" + name)
        ctx.event("reported_characters", len(other[2]) + len(other[3]))
        ctx.check(other[0] == plain[0], f"{key}/{name}", lambda: f"{opts}: {str(other[0])[:300]} instead of {str(plain[0])[:300]}")
        if spec is not None and name not in ("no-bound", "empty-knowledge"):
            ctx.check(other[1] == plain[1], f"{key}/{name}/questions", "other independence questions were asked")
    ctx.state(key, repr(plain[0]))
    return plain


def constraint(ctx):
    r = ctx.rng
    kind = ["pc", "fci", "cdnod", "fas", "skeleton"][ctx.index % 5]
    n = int(r.integers(3, 7))
    E, spec = noisy(r, n)
    data = lib.oracle_data(n, n + 3)
    default = [f"X{i + 1}" for i in range(n)]
    cfg, stable = CONFIGS[int(r.integers(len(CONFIGS)))], bool(r.random() < .6)
    if cfg[0] and n > 5:
        cfg = (0, cfg[1])
    report = [("verbose", {"verbose": True, "show_progress": False}), ("progress", {"verbose": False, "show_progress": True}), ("verbose", {"verbose": True, "show_progress": True})]
    ctx.note({"method": kind, "n": n, "E": lib.E_(E), "cfg": cfg, "stable": stable})
    if kind == "pc":
        res = compare(ctx, "pc", spec, lambda **o: cg_result(pc(data, .05, "vf_oracle", stable, cfg[0], cfg[1], spec=spec, **{"show_progress": False, **o})),
                      report + [("default-names", {"node_names": default}), ("no-knowledge", {"background_knowledge": None}), ("empty-knowledge", {"background_knowledge": BackgroundKnowledge()})])
    elif kind == "fci":
        lat = int(r.integers(0, 3))
        N = n + lat
        E = gen.rand_dag(r, N)
        while len(E) > 14:
            E = gen.rand_dag(r, N)
        spec = oracles.NoisySpec(N, E, obs=list(range(lat, N)), alpha=.05, flip=float(r.choice([0, .05, .15, .3])), salt=int(r.integers(1 << 30)))
        ctx.note({"method": kind, "E": lib.E_(E), "latent": lat})

        def run(**o):
            G, edges = fci(data, "vf_oracle", .05, spec=spec, **{"show_progress": False, **o})
            return graph(G), sorted((str(e), sorted(str(p) for p in e.properties)) for e in edges)
        res = compare(ctx, "fci", spec, run, report + [("no-bound", {"depth": n}), ("default-names", {"node_names": default}),
                                                       ("empty-knowledge", {"background_knowledge": BackgroundKnowledge()}), ("no-bound", {"max_path_length": 50}), ("no-bound", {"depth": 1000, "max_path_length": 1000})])
    elif kind == "cdnod":
        res = compare(ctx, "cdnod", spec, lambda **o: cg_result(cdnod(data[:, :-1], data[:, -1:], .05, "vf_oracle", stable, cfg[0], cfg[1], spec=spec, **{"show_progress": False, **o})),
                      report + [("no-knowledge", {"background_knowledge": None}), ("empty-knowledge", {"background_knowledge": BackgroundKnowledge()})])
    elif kind == "fas":
        nodes = [GraphNode(v) for v in default]

        def run(**o):
            G, S, T = fas(data, nodes, CIT(data, "vf_oracle", spec=spec), .05, **{"show_progress": False, "stable": stable, **o})
            return graph(G), {k: sorted(v) for k, v in S.items()}, sorted((repr(k), float(v)) if np.isscalar(v) else (repr(k), repr(v)) for k, v in T.items())
        res = compare(ctx, "fas", spec, run, report + [("no-bound", {"depth": n}), ("empty-knowledge", {"knowledge": BackgroundKnowledge()}), ("no-knowledge", {"knowledge": None})])
    else:
        res = compare(ctx, "skeleton", spec, lambda **o: cg_result(SkeletonDiscovery.skeleton_discovery(data, .05, CIT(data, "vf_oracle", spec=spec), **{"show_progress": False, "stable": stable, **o})),
                      report + [("default-names", {"node_names": default}), ("no-knowledge", {"background_knowledge": None}), ("empty-knowledge", {"background_knowledge": BackgroundKnowledge()})])
    ctx.event("method:" + kind)


def worlds(ctx):
    """FCI on the worlds that need its rare rules, with right answers or a few wrong ones"""
    from .C04 import corpus_world
    r = ctx.rng
    n, E, L, S, obs = corpus_world(ctx)
    if len(obs) > 8:
        return ctx.event("large_world")
    spec = oracles.NoisySpec(n, E, obs=obs, sel=S, alpha=.05, flip=float(r.choice([0, 0, .03, .1])), salt=int(r.integers(1 << 30)))
    data = lib.oracle_data(len(obs), len(obs) + 3)

    def run(**o):
        G, edges = fci(data, "vf_oracle", .05, spec=spec, **{"show_progress": False, **o})
        return graph(G), sorted((str(e), sorted(str(p) for p in e.properties)) for e in edges)
    compare(ctx, "fci", spec, run, [("verbose", {"verbose": True, "show_progress": bool(r.random() < .3)}), ("no-bound", {"depth": len(obs), "max_path_length": 200}),
                                    ("default-names", {"node_names": [f"X{i + 1}" for i in range(len(obs))]})])
    ctx.note({"E": lib.E_(E), "obs": obs, "selected": S})


def missing(ctx):
    """the searches on data with missing entries report as they go, too"""
    r = ctx.rng
    n = int(r.integers(3, 5))
    X = gen.sem_linear(r, n, gen.rand_dag(r, n), int(r.integers(200, 400)))[0]
    X[r.random(X.shape) < .07] = np.nan
    report = [("verbose", {"verbose": True}), ("progress", {"show_progress": True})]
    cfg = CONFIGS[int(r.integers(len(CONFIGS)))]
    if ctx.index % 2:
        c = np.linspace(0, 1, len(X))[:, None]
        compare(ctx, "mvcdnod", None, lambda **o: cg_result(cdnod(X, c, .05, "mv_fisherz", True, cfg[0], cfg[1], True, **{"show_progress": False, **o})), report)
    else:
        compare(ctx, "mvpc", None, lambda **o: cg_result(pc(X, .05, "mv_fisherz", True, cfg[0], cfg[1], True, **{"show_progress": False, **o})), report + [("default-names", {"node_names": [f"X{i + 1}" for i in range(n)]})])
    ctx.note({"n": n, "cfg": cfg})


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-12, equal_nan=True)


def scores(ctx):
    r = ctx.rng
    n = int(r.integers(2, 6))
    kind = ["exact", "boss", "grasp", "ges"][ctx.index % 4]
    X = gen.sem_linear(r, n, gen.rand_dag(r, n), int(r.integers(50, 300)), noise=str(r.choice(["gauss", "uniform"])))[0]
    default = [f"X{i + 1}" for i in range(n)]
    ctx.note({"method": kind, "n": n})
    if kind == "exact":
        method = str(r.choice(["astar", "dp"]))
        full = np.ones((n, n)) - np.eye(n)

        def run(**o):
            return np.asarray(bic_exact_search(X, search_method=method, **o)[0]).astype(int).tolist()
        compare(ctx, "exact/" + method, None, run, [("verbose", {"verbose": True}), ("no-bound", {"max_parents": n}), ("no-bound", {"max_parents": n - 1}), ("empty-knowledge", {"super_graph": full}),
                                                    ("empty-knowledge", {"include_graph": np.zeros((n, n))}), ("empty-knowledge", {"super_graph": full, "include_graph": np.zeros((n, n)), "max_parents": n})]
                + ([("verbose", {"verbose": True, "use_k_cycle_heuristic": False})] if method == "astar" else []))
        if method == "astar":
            compare(ctx, "exact/kcycle", None, lambda **o: run(use_k_cycle_heuristic=True, k=2, **o), [("verbose", {"verbose": True}), ("empty-knowledge", {"super_graph": full})])
    elif kind == "boss":
        score = str(r.choice(["local_score_BIC_from_cov", "local_score_BIC"]))
        compare(ctx, "boss", None, lambda **o: graph(boss(X, score, **{"verbose": False, **o})), [("verbose", {"verbose": True}), ("default-names", {"node_names": default}), ("default", {"parameters": None})])
    elif kind == "grasp":
        score = str(r.choice(["local_score_BIC_from_cov", "local_score_BIC"]))
        compare(ctx, "grasp", None, lambda **o: graph(grasp(X, score, **{"verbose": False, **o})), [("verbose", {"verbose": True}), ("default-names", {"node_names": default}), ("default", {"depth": 3}), ("default", {"parameters": None})])
    else:
        def run(**o):
            R = ges(X, "local_score_BIC", **o)
            return graph(R["G"]), float(np.ravel(R["score"])[0])
        compare(ctx, "ges", None, run, [("default-names", {"node_names": default}), ("default", {"maxP": None}), ("default", {"parameters": None})])
    ctx.event("method:" + kind)


def models(ctx):
    """prior knowledge that knows nothing, and the models that are used when none is given"""
    r = ctx.rng
    n = int(r.integers(2, 5))
    kind = ["direct", "direct-kernel", "multi", "parce", "var", "varma"][ctx.index % 6]
    N = 60 if kind == "direct-kernel" else int(r.integers(80, 200))
    X = gen.sem_linear(r, n, gen.rand_dag(r, n), N, noise="uniform")[0]
    none = np.full((n, n), -1)
    ctx.note({"method": kind, "n": n})

    def same(name, a, b):
        ctx.event("variants:" + name)
        ok = [list(map(str, np.ravel(np.asarray(a[0], object)))) == list(map(str, np.ravel(np.asarray(b[0], object))))] + [close(x, y) for x, y in zip(a[1], b[1])]
        ctx.check(all(ok) and len(a[1]) == len(b[1]), f"{kind}/{name}", lambda: f"{a} and {b}")

    def fit(m, D):
        m.fit(D)
        return (m.causal_order_, [np.asarray(v) for v in m.adjacency_matrices_] if hasattr(m, "adjacency_matrices_") else [m.adjacency_matrix_])
    if kind == "direct":
        a = fit(lingam.DirectLiNGAM(), X)
        same("empty-knowledge", a, fit(lingam.DirectLiNGAM(prior_knowledge=none), X))
        same("default", a, fit(lingam.DirectLiNGAM(random_state=4, measure="pwling"), X))
        same("empty-knowledge", a, fit(lingam.DirectLiNGAM(prior_knowledge=none, apply_prior_knowledge_softly=True), X))
    elif kind == "direct-kernel":
        a = fit(lingam.DirectLiNGAM(measure="kernel"), X[:, :3])
        same("empty-knowledge", a, fit(lingam.DirectLiNGAM(measure="kernel", prior_knowledge=none[:3, :3]), X[:, :3]))
    elif kind == "multi":
        Y = gen.sem_linear(r, n, gen.rand_dag(r, n), N + 20, noise="uniform")[0]
        a = fit(lingam.MultiGroupDirectLiNGAM(), [X, Y])
        same("empty-knowledge", a, fit(lingam.MultiGroupDirectLiNGAM(prior_knowledge=none), [X, Y]))
        same("empty-knowledge", a, fit(lingam.MultiGroupDirectLiNGAM(prior_knowledge=none, apply_prior_knowledge_softly=True), [X, Y]))
    elif kind == "parce":
        a = fit(lingam.BottomUpParceLiNGAM(), X)
        same("empty-knowledge", a, fit(lingam.BottomUpParceLiNGAM(prior_knowledge=none), X))
        same("default", a, fit(lingam.BottomUpParceLiNGAM(alpha=.1, random_state=3), X))
    else:
        from . import L05
        S = L05.simulate_var(r, n, 1, 150)[0]
        pk = bool(r.random() < .5)
        if kind == "var":
            mk = lambda **k: lingam.VARLiNGAM(lags=1, prune=pk, **k)
            a = fit(mk(), S)
            same("default", a, fit(mk(criterion="bic"), S))
        else:
            A, M = .3 * np.eye(n)[None], .2 * np.eye(n)[None]
            mk = lambda **k: lingam.VARMALiNGAM(order=(1, 1), prune=pk, ar_coefs=A, ma_coefs=M, **k)

            def seeded(m):
                np.random.seed(2)
                return fit(m, S)
            fit0, fit = fit, lambda m, D: seeded_fit(m, D)

            def seeded_fit(m, D):
                np.random.seed(2)
                return fit0(m, D)
            a = fit(mk(), S)
        same("default", a, fit(mk(lingam_model=lingam.DirectLiNGAM()), S))
        same("empty-knowledge", a, fit(mk(lingam_model=lingam.DirectLiNGAM(prior_knowledge=none)), S))
        same("default", a, fit(mk(random_state=8), S))
    ctx.event("method:" + kind)
    ctx.state(kind, str(a[0]), [np.round(np.nan_to_num(np.asarray(v, float)), 8).tolist() for v in a[1]])


def tests(ctx):
    """the ways to say "no condition" and to name columns"""
    r = ctx.rng
    kind = ["fisherz", "chisq", "gsq", "mv_fisherz", "kci", "d_separation"][ctx.index % 6]
    n = int(r.integers(3, 6))
    E = gen.rand_dag(r, n)
    kw = {}
    if kind in ("chisq", "gsq"):
        X = gen.sem_discrete(r, n, E, 200)[0]
    elif kind == "d_separation":
        import networkx as nx
        g = nx.DiGraph()
        g.add_nodes_from(range(n))
        g.add_edges_from(E)
        X, kw = lib.oracle_data(n, n + 3), {"true_dag": g}
    else:
        X = gen.sem_linear(r, n, E, 60 if kind == "kci" else 200)[0]
        if kind == "mv_fisherz":
            X[r.random(X.shape) < .05] = np.nan
    ok, t = ctx.call("CIT", CIT, X, kind, **kw)
    if not ok:
        return
    ctx.note({"test": kind, "n": n})
    out = []
    for _ in range(2 if kind == "kci" else 6):
        x, y = (int(v) for v in r.choice(n, 2, replace=False))
        rest = [v for v in range(n) if v not in (x, y)]
        Z = [int(v) for v in r.permutation(rest)[:int(r.integers(0, min(3, len(rest)) + 1))]]
        ways = [(x, y, Z), (x, y, tuple(Z)), (np.int64(x), np.int32(y), Z), (x, y, np.array(Z, int)), (x, y, Z[::-1]), (x, y, set(Z))]
        if Z:
            ways.append((x, y, Z + Z[:1]))
        else:
            ways += [(x, y, None), (x, y)]
        got = []
        for w in ways:
            ok, p = ctx.call("CIT/" + kind, lambda: CIT(X, kind, **kw)(*w) if r.random() < .3 else t(*w))
            if not ok:
                return
            got.append(float(p))
        ctx.event("questions")
        ctx.check(all(abs(g - got[0]) < 1e-9 for g in got), f"CIT/{kind}/same-question", lambda: f"{x},{y}|{Z}: {list(zip(ways, got))}")
        out.append(round(got[0], 9))
    ctx.state(kind, out)
    ctx.event("test:" + kind)


STREAMS = {
    "constraint": Stream(constraint, 200, 8000, need=["variants:verbose", "variants:progress", "variants:default-names", "variants:empty-knowledge", "variants:no-bound", "reported_characters"] +
                         ["method:" + k for k in ("pc", "fci", "cdnod", "fas", "skeleton")], timeout=120, steps=200_000_000),
    "worlds": Stream(worlds, 120, 4000, need=["variants:verbose"], timeout=120, steps=200_000_000),
    "missing": Stream(missing, 12, 400, need=["variants:verbose"], timeout=120, steps=200_000_000),
    "scores": Stream(scores, 80, 3000, need=["method:" + k for k in ("exact", "boss", "grasp", "ges")] + ["reported_characters"], timeout=120),
    "models": Stream(models, 36, 1200, need=["method:" + k for k in ("direct", "direct-kernel", "multi", "parce", "var", "varma")], timeout=120),
    "tests": Stream(tests, 48, 1500, need=["questions"] + ["test:" + k for k in ("fisherz", "chisq", "gsq", "mv_fisherz", "kci", "d_separation")]),
}
