"""CD-NOD: causal discovery on data augmented by a domain / time index."""
import itertools

import numpy as np

from causallearn.search.ConstraintBased.CDNOD import cdnod

from .. import gen, lib, oracles, ref
from ..core import Stream
from .C01 import CONFIGS
from .C02 import composed
from .C03 import config, justified, knowledge_of, other_world, respected, snap

ID = "C06"
ALPHAS = (.05, .01, .2)
RULE = "a case = one run of CD-NOD; distinct by augmented DAG (or result), configuration and knowledge"
ASSUMPTIONS = ["the domain index is a root of the augmented DAG", "with inconsistent answers the direction of the index edges is only claimed for the priorities that do not overwrite colliders"]


def augmented(r, n):
    """a DAG over n variables and the index n, which is a root"""
    E = set(gen.rand_dag(r, n))
    ch = [v for v in range(n) if r.random() < r.choice([.2, .5])]
    return E | {(n, v) for v in ch}


def shape(ctx, cg, n):
    A = cg.G.graph
    ctx.check(A.shape == (n + 1, n + 1), "cdnod/shape", f"{A.shape}")
    ctx.check([v.get_name() for v in cg.G.get_nodes()] == [f"X{i + 1}" for i in range(n + 1)], "cdnod/names")
    ctx.check(lib.marks(cg.G).m == lib.matrix_marks(A).m, "cdnod/edge-view")


def judge(ctx, who, cg, n, E, F, R, txt):
    """the result contains the closure of v-structures, index edges and knowledge under R1-R3 and lies within the full closure"""
    N = n + 1
    d, u, x = lib.dir_und(cg.G.graph)
    txt0 = lambda: txt() + f": got {lib.show(d, u)} {x}"
    B = {(i, j) for i, j in E if i == n or (i, j) in R or (j, i) in F}
    V = {e for a, v, b in ref.vstructs(N, E) for e in ((a, v), (b, v))}
    sk = ref.skeleton(E)
    und = {s for s in sk if not any(t in V | B for t in (tuple(s), tuple(s)[::-1]))}
    lo, _ = ref.meek(N, V | B, und, rule4=False)
    hi, _ = ref.meek(N, V | B, und, rule4=True)
    ctx.check(ref.skeleton(d) | u == sk and not x, who + "/skeleton", txt0)
    ctx.check(all((n, j) in d for i, j in E if i == n), who + "/index-edge", txt0)
    ctx.check(d <= hi, who + "/unjustified-orientation", lambda: txt0() + f", {sorted(d - hi)} does not follow")
    ctx.check(lo <= d, who + "/missed-orientation", lambda: txt0() + f", misses {sorted(lo - d)}")
    if lo > ref.cpdag(N, E)[0]:
        ctx.event("index_informative")
    respected(ctx, who, d, u, x, F, R)
    shape(ctx, cg, n)


def truth(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    E = augmented(r, n)
    names = [f"X{i + 1}" for i in range(n + 1)]
    bk, F, R = None, set(), set()
    if r.random() < .5:
        bk, F, R = knowledge_of(r, n + 1, lambda i, j: (i, j) in E, names, ref.topo(n + 1, E))
    cfg, stable = config(r, E), bool(r.random() < .6)
    spec = oracles.DsepSpec(n + 1, E, alpha=ALPHAS[ctx.index % 3], salt=ctx.index)
    data = lib.oracle_data(n + 1, n + 3)
    X, c = data[:, :n].copy(), data[:, n:].copy()
    ok, cg = ctx.call("cdnod", cdnod, X, c, ALPHAS[ctx.index % 3], "vf_oracle", stable, cfg[0], cfg[1], background_knowledge=bk, show_progress=False, spec=spec)
    if not ok:
        return
    ctx.check(np.array_equal(X, data[:, :n]) and np.array_equal(c, data[:, n:]), "cdnod/data-mutated")
    judge(ctx, f"cdnod/uc{cfg[0]}", cg, n, E, F, R, lambda: f"DAG {lib.E_(E)} index {n} forbidden {sorted(F)} required {sorted(R)} {cfg} stable={stable}")
    ctx.event("truth_runs")
    ctx.event("with_knowledge", int(bk is not None))
    ctx.state(n, sorted(E), sorted(F), sorted(R), cfg, stable)
    ctx.note({"n": n, "E": lib.E_(E), "cfg": cfg, "stable": stable})


def noisy(ctx):
    r = ctx.rng
    n = int(r.integers(2, 7))
    E = augmented(r, n)
    names = [f"X{i + 1}" for i in range(n + 1)]
    bk, F, R = None, set(), set()
    if r.random() < .5:
        W = augmented(r, n)
        bk, F, R = knowledge_of(r, n + 1, lambda i, j: (i, j) in W, names, ref.topo(n + 1, W))
        if any((n, j) in F for j in range(n)) or any((j, n) in R for j in range(n)):
            bk, F, R = None, set(), set()
    cfg, stable = config(r, E), bool(r.random() < .6)
    a = float(r.choice([.01, .05, .2]))
    spec = oracles.NoisySpec(n + 1, E, alpha=a, salt=ctx.index, flip=float(r.choice([.05, .1, .3])))
    data = lib.oracle_data(n + 1, n + 3)
    ok, cg = ctx.call("cdnod", cdnod, data[:, :n], data[:, n:], a, "vf_oracle", stable, cfg[0], cfg[1], background_knowledge=bk, show_progress=False, spec=spec)
    if not ok:
        return
    d, u, x = lib.dir_und(cg.G.graph)
    shape(ctx, cg, n)
    adj = [set() for _ in range(n + 1)]
    for i, j in [tuple(e) for e in d] + [tuple(e) for e in u] + [e[:2] for e in x]:
        adj[i].add(j)
        adj[j].add(i)
    if cfg[1] not in (0, 1):
        ctx.check(all((n, j) in d for j in adj[n]), f"cdnod/uc{cfg[0]}/index-edge", lambda: f"{lib.show(d, u)} {x}")
        ctx.event("index_edges", len(adj[n]))
    respected(ctx, f"cdnod/uc{cfg[0]}", d, u, x, F, R)
    if cfg[0] == 0:
        justified(ctx, "cdnod", spec.log, adj, n + 1, a, F)
    composed(ctx, "cdnod", cg, a, cfg, bk, n)
    ctx.state(n, sorted(d), sorted(map(sorted, u)), cfg, stable)


def data(ctx):
    """linear data whose sample correlations are exactly those of the augmented DAG"""
    r = ctx.rng
    for _ in range(40):
        n = int(r.integers(2, 6))
        E = augmented(r, n)
        X, C, _ = gen.exact_cov_data(r, n + 1, E, N=4000)
        if gen.faithful_cov(C, n + 1, E, tol=.08):
            break
    else:
        return ctx.event("no_faithful_draw")
    X = X * r.uniform(.2, 5, n + 1) + r.normal(size=n + 1)
    cfg, stable = CONFIGS[int(r.integers(len(CONFIGS)))], bool(r.random() < .6)
    A, c = X[:, :n].copy(), X[:, n:].copy()
    ok, cg = ctx.call("cdnod", cdnod, A, c, .01, "fisherz", stable, cfg[0], cfg[1], show_progress=False)
    if ok:
        ctx.check(np.array_equal(A, X[:, :n]) and np.array_equal(c, X[:, n:]), "cdnod/data-mutated")
        judge(ctx, f"cdnod-fisherz/uc{cfg[0]}", cg, n, E, set(), set(), lambda: f"DAG {lib.E_(E)} index {n} {cfg} stable={stable}")
        ctx.event("data_runs")
        ctx.state(n, sorted(E), cfg, stable)


STREAMS = {
    "truth": Stream(truth, 600, 30000, need=["index_informative", "with_knowledge"], timeout=60),
    "noisy": Stream(noisy, 400, 20000, need=["index_edges", "composed"], timeout=60),
    "data": Stream(data, 200, 5000, need=["data_runs"], timeout=60),
}
