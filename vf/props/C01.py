"""PC with correct independence answers returns exactly the CPDAG."""
import numpy as np

from causallearn.search.ConstraintBased.PC import pc

from .. import gen, lib, ref
from ..core import Stream
from ..oracles import DsepSpec

ID = "C01"
RULE = ("a case = one DAG (exhaustive n<=4 or random n<=9, random column order and names), one PC configuration "
        "(stable, uc_rule, uc_priority) and one source of correct independence answers (recorded d-separation oracle, the "
        "library's own d_separation test, Fisher-Z on data with exactly the model covariance, chi2/G2 on data with exactly "
        "the model distribution); non-trivial when the DAG has an edge; distinct by (DAG, configuration, source)")
ASSUMPTIONS = ["reference CPDAG: v-structures + Meek closure, cross-validated against enumeration of the equivalence class"]

CONFIGS = [(r, p) for r in (0, 1) for p in (-1, 0, 1, 2, 3, 4)] + [(2, p) for p in (-1, 2, 3, 4)]


def small_dags():
    global _SD
    try:
        return _SD
    except NameError:
        _SD = [(n, E) for n in (2, 3, 4) for E in ref.all_dags(n)]
        return _SD


def judge(ctx, cg, n, E, key, names=None, **info):
    D, U = ref.cpdag(n, E)
    A = cg.G.graph
    d, u, x = lib.dir_und(A)
    ctx.event("cpdag_compared")
    ctx.check(A.shape == (n, n), key + "/shape", A.shape)
    ctx.check(not x and d == D and u == U, key,
              lambda: f"PC returned {lib.show(d, u)} + other {x}; CPDAG is {lib.show(D, U)} (DAG {lib.E_(E)}) {info}")
    # the edge-object view must say the same as the matrix
    ctx.check(lib.marks(cg.G).m == lib.matrix_marks(A).m, key + "/edge_view", "get_graph_edges disagrees with graph matrix")
    if names is not None:
        ctx.check([v.get_name() for v in cg.G.get_nodes()] == names, key + "/names", "node names changed")
    if E:
        ctx.state(n, sorted(E), sorted(info.items(), key=str))


def run_oracle(ctx, n, E, cfg, stable, names, alpha=0.05, salt=0):
    spec = DsepSpec(n, E, alpha=alpha, salt=salt)
    ok, cg = ctx.call("pc", pc, lib.oracle_data(n, n + 2), alpha, "vf_oracle", stable, cfg[0], cfg[1],
                      show_progress=False, node_names=names, spec=spec)
    ctx.event("ci_queries", len(spec.log))
    if ok:
        judge(ctx, cg, n, E, f"pc-oracle/uc{cfg[0]}", names, cfg=cfg, stable=stable)


def exhaustive(ctx):
    sd = small_dags()
    n, E = sd[(ctx.index * 7 + ctx.seed * 131) % len(sd)]
    for stable in (True, False):
        for cfg in CONFIGS:
            run_oracle(ctx, n, E, cfg, stable, None)
    ctx.note({"n": n, "E": lib.E_(E), "configs": "all uc_rule x uc_priority x stable"})


def randomised(ctx):
    r = ctx.rng
    n = int(r.integers(5, 9 if ctx.tier == "quick" else 10))
    E = gen.rand_dag(r, n)
    if len(E) > 18:
        n = 6
        E = gen.rand_dag(r, n)
    if ctx.index % 15 == 4:                      # more variables than one digit can number
        n = int(r.integers(10, 14))
        E = gen.sparse_dag(r, n)
        ctx.event("wide")
    names = gen.names(r, n)
    alpha = float(r.choice([0.01, 0.05, 0.2, 0.5]))
    ctx.note({"n": n, "E": lib.E_(E), "names": names})
    for k in range(2):
        cfg = CONFIGS[int(r.integers(len(CONFIGS)))]
        if cfg[0] and len(E) > 14:
            cfg = (0, cfg[1])
        run_oracle(ctx, n, E, cfg, bool(r.random() < .6), names, alpha, salt=k)


def own_dsep(ctx):
    """the library's d_separation test as source of answers"""
    import networkx as nx
    r = ctx.rng
    n = int(r.integers(3, 8))
    E = gen.rand_dag(r, n)
    if ctx.index % 15 == 4:
        n = int(r.integers(10, 14))
        E = gen.sparse_dag(r, n)
        ctx.event("wide")
    G = nx.DiGraph()
    G.add_nodes_from(range(n))
    G.add_edges_from(sorted(E))
    cfg = CONFIGS[int(r.integers(len(CONFIGS)))]
    st = bool(r.random() < .6)
    ctx.note({"n": n, "E": lib.E_(E), "cfg": cfg})
    ok, cg = ctx.call("pc_dsep", pc, lib.oracle_data(n, n + 2), 0.05, "d_separation", st, cfg[0], cfg[1], show_progress=False, true_dag=G)
    if ok:
        judge(ctx, cg, n, E, f"pc-dsep/uc{cfg[0]}", cfg=cfg, stable=st, src="d_separation")


def fisherz(ctx):
    r = ctx.rng
    for _ in range(40):
        n = int(r.integers(3, 7))
        E = gen.rand_dag(r, n)
        X, C, W = gen.exact_cov_data(r, n, E, N=4000)
        if gen.faithful_cov(C, n, E, tol=0.08):
            break
    else:
        ctx.event("no_faithful_draw")
        return
    X = X * r.uniform(.2, 5, n) + r.normal(size=n) * 4       # invariance to units
    cfg = CONFIGS[int(r.integers(len(CONFIGS)))]
    st = bool(r.random() < .6)
    alpha = float(r.choice([.01, .05, .1]))
    ctx.note({"n": n, "E": lib.E_(E), "cfg": cfg})
    X0 = X.copy()
    ok, cg = ctx.call("pc_fisherz", pc, X, alpha, "fisherz", st, cfg[0], cfg[1], show_progress=False)
    if ok:
        judge(ctx, cg, n, E, f"pc-fisherz/uc{cfg[0]}", cfg=cfg, stable=st, src="fisherz", alpha=alpha)
        ctx.check(np.array_equal(X, X0), "pc-fisherz/data_mutated", "input data changed")


def exact_discrete(rng, n, E, den=4):
    """integer data whose empirical distribution factorises exactly along the DAG (binary, CPT entries k/den)"""
    pa = ref.parents_of(n, E)
    rows = {(): 1}
    order = ref.topo(n, E)
    pos = {v: i for i, v in enumerate(order)}
    for v in order:
        new = {}
        ps = sorted(pa[v], key=lambda q: pos[q])
        cpt = {}
        for cfg, w in rows.items():
            k = tuple(cfg[pos[q]] for q in ps)
            if k not in cpt:
                cpt[k] = int(rng.integers(1, den))
            new[cfg + (0,)] = w * cpt[k]
            new[cfg + (1,)] = w * (den - cpt[k])
        rows = new
    data = np.repeat(np.array([list(c) for c in rows]), list(rows.values()), axis=0)
    X = np.zeros_like(data)
    for i, v in enumerate(order):
        X[:, v] = data[:, i]
    return X


def strength(X, n, E):
    """smallest G2/N over d-connected queries of the empirical distribution"""
    import itertools
    N = len(X)
    worst = 9e9
    for x in range(n):
        for y in range(x + 1, n):
            rest = [v for v in range(n) if v not in (x, y)]
            for k in range(len(rest) + 1):
                for Z in itertools.combinations(rest, k):
                    if ref.dsep(n, E, x, y, Z):
                        continue
                    code = X[:, list(Z)] @ (2 ** np.arange(len(Z))) if Z else np.zeros(N, int)
                    g = 0.0
                    for c in np.unique(code):
                        s = X[code == c]
                        t = np.zeros((2, 2))
                        np.add.at(t, (s[:, x], s[:, y]), 1)
                        e = np.outer(t.sum(1), t.sum(0)) / t.sum()
                        ok = t > 0
                        g += 2 * (t[ok] * np.log(t[ok] / e[ok])).sum()
                    worst = min(worst, g / N)
    return worst


def discrete(ctx):
    r = ctx.rng
    for _ in range(60):
        n = int(r.integers(3, 5))
        E = gen.rand_dag(r, n)
        X = exact_discrete(r, n, E)
        s = strength(X, n, E)
        if s > 2e-3:
            break
    else:
        ctx.event("no_faithful_draw")
        return
    N = len(X)
    rep = int(np.ceil(60 / (s * N)))
    X = np.repeat(X, max(1, rep), axis=0)
    if len(X) > 60000:
        ctx.event("too_large")
        return
    X = X[r.permutation(len(X))]
    off = r.integers(0, 3, n)
    X = X * r.integers(1, 3, n) + off         # arbitrary integer codes
    which = str(r.choice(["chisq", "gsq"]))
    cfg = CONFIGS[int(r.integers(len(CONFIGS)))]
    st = bool(r.random() < .6)
    ctx.note({"n": n, "E": lib.E_(E), "cfg": cfg, "test": which, "rows": len(X)})
    ok, cg = ctx.call("pc_" + which, pc, X, .01, which, st, cfg[0], cfg[1], show_progress=False)
    if ok:
        judge(ctx, cg, n, E, f"pc-{which}/uc{cfg[0]}", cfg=cfg, stable=st, src=which)


STREAMS = {
    "exhaustive": Stream(exhaustive, 200, 571, need=["cpdag_compared"], timeout=120),
    "random": Stream(randomised, 500, 8000, need=["cpdag_compared", "ci_queries"], timeout=120),
    "own_dsep": Stream(own_dsep, 150, 1500, need=["cpdag_compared"], timeout=120),
    "fisherz": Stream(fisherz, 150, 2500, need=["cpdag_compared"], timeout=120),
    "discrete": Stream(discrete, 100, 1200, need=["cpdag_compared"], timeout=120),
}
