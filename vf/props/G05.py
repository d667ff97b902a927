"""Graph-comparison metrics equal their definitions whatever the graphs and node orders."""
import itertools

import numpy as np

from causallearn.graph.AdjacencyConfusion import AdjacencyConfusion
from causallearn.graph.ArrowConfusion import ArrowConfusion
from causallearn.graph.SHD import SHD
from causallearn.utils.GraphUtils import GraphUtils

from .. import gen, lib, ref
from ..core import Stream

ID = "G05"
RULE = ("a case = a pair (or triple) of random graphs over the same variables, listed in possibly different orders; non-trivial when the two graphs differ; "
        "distinct by the two graphs")
ASSUMPTIONS = ["ratios are only checked where their denominator is positive"]
KINDS = {"dag": [(ref.TAIL, ref.ARR)], "cpdag": [(ref.TAIL, ref.ARR), (ref.TAIL, ref.TAIL)],
         "pag": [(ref.TAIL, ref.ARR), (ref.TAIL, ref.TAIL), (ref.ARR, ref.ARR), (ref.CIRC, ref.ARR), (ref.CIRC, ref.CIRC), (ref.CIRC, ref.TAIL)]}


def rand_mixed(r, n, kind, base=None):
    g = ref.Mixed(n)
    o = [int(v) for v in r.permutation(n)]
    q = r.uniform(0, 1)
    for i, j in itertools.combinations(range(n), 2):
        a, b = o[i], o[j]
        if base is not None and r.random() < .7:
            g.set(a, b, base.m[b][a], base.m[a][b])
            continue
        if r.random() < q:
            k = KINDS[kind]
            ma, mb = k[int(r.integers(len(k)))]
            if kind != "dag" and r.random() < .5:
                ma, mb = mb, ma
            g.set(a, b, ma, mb)
    return g


def two(ctx):
    r = ctx.rng
    n = int(r.integers(2, 8))
    kind = str(r.choice(list(KINDS)))
    ctx.event(kind)
    t = rand_mixed(r, n, kind)
    e = rand_mixed(r, n, kind, base=t if r.random() < .7 else None) if r.random() < .9 else t.copy()
    names = gen.names(r, n)
    perm = [int(v) for v in r.permutation(n)] if r.random() < .6 else list(range(n))
    ctx.event("reordered" if perm != sorted(perm) else "same_order")
    T, _ = lib.general_of(names, t)
    e2 = ref.Mixed(n)
    for i in range(n):
        for j in range(n):
            e2.m[i][j] = e.m[perm[i]][perm[j]]
    Eg, _ = lib.general_of([names[p] for p in perm], e2)
    ctx.note({"truth": t.show(names), "est": e.show(names), "est_order": perm})
    if t.key() != e.key():
        ctx.state(t.key(), e.key())
    return n, t, e, T, Eg, names


def shd(ctx):
    n, t, e, T, Eg, names = two(ctx)
    want = sum((t.m[i][j], t.m[j][i]) != (e.m[i][j], e.m[j][i]) for i, j in itertools.combinations(range(n), 2))
    got = SHD(T, Eg).get_shd()
    ctx.event("differs" if want else "equal")
    ctx.check(got == want, "shd/value", f"{t.show(names)} vs {e.show(names)}: {got}, should be {want}")
    ctx.check(SHD(Eg, T).get_shd() == want, "shd/asymmetric")
    ctx.check(SHD(T, T).get_shd() == 0, "shd/self")


def confusion(ctx):
    n, t, e, T, Eg, names = two(ctx)
    a = AdjacencyConfusion(T, Eg)
    P = list(itertools.combinations(range(n), 2))
    tp = sum(t.adj(i, j) and e.adj(i, j) for i, j in P)
    fp = sum(not t.adj(i, j) and e.adj(i, j) for i, j in P)
    fn = sum(t.adj(i, j) and not e.adj(i, j) for i, j in P)
    ctx.check((a.get_adj_tp(), a.get_adj_fp(), a.get_adj_fn(), a.get_adj_tn()) == (tp, fp, fn, len(P) - tp - fp - fn), "adj/counts",
              f"{t.show(names)} vs {e.show(names)}: {(a.get_adj_tp(), a.get_adj_fp(), a.get_adj_fn(), a.get_adj_tn())} should be {(tp, fp, fn)}")
    u = GraphUtils()
    if tp + fp:
        ctx.event("adj_precision")
        ctx.check(np.isclose(a.get_adj_precision(), tp / (tp + fp)) and np.isclose(u.adj_precision(T, Eg), tp / (tp + fp)), "adj/precision")
    if tp + fn:
        ctx.check(np.isclose(a.get_adj_recall(), tp / (tp + fn)) and np.isclose(u.adj_recall(T, Eg), tp / (tp + fn)), "adj/recall")
    O = list(itertools.permutations(range(n), 2))
    ta = {(i, j) for i, j in O if t.m[i][j] == ref.ARR}
    ea = {(i, j) for i, j in O if e.m[i][j] == ref.ARR}
    tc = {(i, j) for i, j in ta if e.adj(i, j)}
    ec = {(i, j) for i, j in ea if t.adj(i, j)}
    w = ArrowConfusion(T, Eg)
    for tag, A, B, got in (("arrow", ta, ea, (w.get_arrows_tp(), w.get_arrows_fp(), w.get_arrows_fn(), w.get_arrows_tn())),
                           ("arrow-ce", tc, ec, (w.get_arrows_tp_ce(), w.get_arrows_fp_ce(), w.get_arrows_fn_ce(), w.get_arrows_tn_ce()))):
        want = (len(A & B), len(B - A), len(A - B))
        ctx.event(tag)
        ctx.check(tuple(got[:3]) == want, tag + "/counts", f"{t.show(names)} vs {e.show(names)}: tp,fp,fn={got[:3]}, should be {want}")
        # the count of agreeing absences may or may not include the n self-pairs
        ctx.check(got[3] in (n * n - sum(want), n * (n - 1) - sum(want)), tag + "/tn", f"{got} n={n}")
    tp, fp, fn = len(ta & ea), len(ea - ta), len(ta - ea)
    if tp + fp:
        ctx.event("arrow_precision")
        ctx.check(np.isclose(w.get_arrows_precision(), tp / (tp + fp)) and np.isclose(u.arrow_precision(T, Eg), tp / (tp + fp)), "arrow/precision")
    if tp + fn:
        ctx.check(np.isclose(w.get_arrows_recall(), tp / (tp + fn)) and np.isclose(u.arrow_recall(T, Eg), tp / (tp + fn)), "arrow/recall")
    tp, fp, fn = len(tc & ec), len(ec - tc), len(tc - ec)
    if tp + fp:
        ctx.event("arrow_precision_ce")
        ctx.check(np.isclose(w.get_arrows_precision_ce(), tp / (tp + fp)) and
                  np.isclose(u.arrow_precision_common_edges(T, Eg), tp / (tp + fp)), "arrow-ce/precision")
    if tp + fn:
        ctx.check(np.isclose(w.get_arrows_recall_ce(), tp / (tp + fn)) and
                  np.isclose(u.arrow_recall_common_edges(T, Eg), tp / (tp + fn)), "arrow-ce/recall")


def weighted(ctx):
    """the weighted distance: zero on equal graphs, symmetric, and a sum over all pairs of variables"""
    r = ctx.rng
    n = int(r.integers(2, 6))
    kind = str(r.choice(["dag", "cpdag"]))
    t = rand_mixed(r, n, kind)
    e = rand_mixed(r, n, kind, base=t if r.random() < .7 else None) if r.random() < .9 else t.copy()
    names = gen.names(r, n)
    u = GraphUtils()

    def cost(g, h, i, j):
        def k(q):
            a, b = q.m[j][i], q.m[i][j]
            return 0 if not a else "u" if a == b == ref.TAIL else ("d", a)
        a, b = k(g), k(h)
        if a == b:
            return 0
        if 0 in (a, b):
            return 1 if "u" in (a, b) else 2
        return 1
    want = sum(cost(t, e, i, j) for i, j in itertools.combinations(range(n), 2))
    T, _ = lib.general_of(names, t)
    Eg, _ = lib.general_of(names, e)
    ctx.note({"truth": t.show(names), "est": e.show(names)})
    ctx.event("differs" if want else "equal")
    got, back = u.sdh(T, Eg), u.sdh(Eg, T)
    ctx.check(got == want, "weighted/value", f"{t.show(names)} vs {e.show(names)}: {got}, should be {want}")
    ctx.check(got == back, "weighted/asymmetric")
    if want:
        ctx.state(t.key(), e.key())


STREAMS = {
    "shd": Stream(shd, 500, 15000, need=["dag", "cpdag", "pag", "reordered", "differs", "equal"]),
    "confusion": Stream(confusion, 600, 15000, need=["arrow", "arrow-ce", "adj_precision", "arrow_precision", "arrow_precision_ce", "reordered"]),
    "weighted": Stream(weighted, 300, 5000, need=["differs", "equal"]),
}
