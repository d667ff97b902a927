"""LiNGAM prior knowledge is honoured by every fit."""
import numpy as np

from causallearn.search.FCMBased import lingam
from causallearn.search.FCMBased.lingam.utils import get_exo_variables, get_sink_variables, make_prior_knowledge

from .. import gen
from .. import lingam_ref as R
from ..core import Stream
from .L01 import coef_checks, data

ID = "L02"
RULE = "a case = one data set, one consistent prior-knowledge matrix and a sequence of fits/bootstraps of one model object; distinct by knowledge and order"
ASSUMPTIONS = ["the knowledge given is consistent: some DAG satisfies it and, for hard knowledge, some order puts b before a whenever a has no path to b", "entry [j, i] = 1: i has a path to j, 0: it has not, as make_prior_knowledge builds it"]


def knowledge(r, n, E, dens):
    """knowledge consistent with the DAG E, entry [to, from]"""
    reach = closure(n, E)
    pk = np.full((n, n), -1)
    for a in range(n):
        for b in range(n):
            if a != b and r.random() < dens:
                pk[b, a] = 1 if (a, b) in reach else 0
    return pk


def closure(n, E):
    C = set(E)
    while True:
        more = {(a, d) for a, b in C for c, d in C if b == c} - C
        if not more:
            return C
        C |= more


def acyclic_only(r, pk):
    """hard knowledge is turned into an order (b before a when a has no path to b): keep what fits one order"""
    n = len(pk)
    while True:
        before = {(fr, to) for to in range(n) for fr in range(n) if pk[to, fr] == 1}
        before |= {(to, fr) for to in range(n) for fr in range(n) if pk[to, fr] == 0 and pk[fr, to] != 0}
        C = closure(n, before)
        loop = [(to, fr) for to in range(n) for fr in range(n) if pk[to, fr] == 0 and (to, fr) in before and (fr, to) in C]
        if not loop:
            return
        to, fr = loop[int(r.integers(len(loop)))]
        pk[to, fr] = -1


def matrix(ctx):
    """make_prior_knowledge says what it was told"""
    r = ctx.rng
    n = int(r.integers(2, 8))
    C = closure(n, gen.rand_dag(r, n))
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    sinks = [v for v in range(n) if not any(a == v for a, _ in C)]
    exo = [v for v in range(n) if not any(b == v for _, b in C)]
    arg = {}
    if r.random() < .6:
        arg["paths"] = [p for p in pairs if p in C and r.random() < .5]
    if r.random() < .6:
        arg["no_paths"] = [p for p in pairs if p not in C and r.random() < .5]
    if r.random() < .6:
        arg["sink_variables"] = [v for v in sinks if r.random() < .6]
    if r.random() < .6:
        arg["exogenous_variables"] = [v for v in exo if r.random() < .6]
    want = np.full((n, n), -1)
    for a, b in pairs:
        if (a, b) in arg.get("paths", []):
            want[b, a] = 1
        elif (a, b) in arg.get("no_paths", []) or a in arg.get("sink_variables", []) or b in arg.get("exogenous_variables", []):
            want[b, a] = 0
    got = make_prior_knowledge(n, **arg)
    ctx.event("matrices")
    ctx.state(n, want.tolist())
    ctx.note({"n": n, **arg})
    ctx.check(np.array_equal(np.asarray(got), want), "make_prior_knowledge", lambda: f"{arg}: {np.asarray(got).tolist()}, should be {want.tolist()}")
    B = np.zeros((n, n))
    for a, b in gen.rand_dag(r, n):
        B[b, a] = r.normal()
    if r.random() < .3:
        B[0, 1], B[0, 0] = .5, 1.0
        if n > 2:
            B[0, 2] = -.5
    off = ~np.eye(n, dtype=bool)
    ctx.check(get_exo_variables(B) == [v for v in range(n) if not np.any(B[v, off[v]] != 0)], "get_exo_variables", lambda: str(B.tolist()))
    ctx.check(get_sink_variables(B) == [v for v in range(n) if not np.any(B[off[:, v], v] != 0)], "get_sink_variables", lambda: str(B.tolist()))


def fits(ctx, soft=False, kernel=False):
    r = ctx.rng
    n, N, E, X, W = data(r, n=int(r.integers(2, 5 if kernel else 6)), N=60 if kernel else None)
    # knowledge of a random DAG, true or not
    K = E if r.random() < .5 else gen.rand_dag(r, n)
    pk = knowledge(r, n, K, r.choice([.15, .4, .8, 1.0]))
    if r.random() < .2:
        # a pair without a path in either direction is all that is known
        pk[:] = -1
        a, b = (int(v) for v in r.permutation(n)[:2])
        pk[a, b] = pk[b, a] = 0
        ctx.event("unordered_pair_only")
    if not soft:
        acyclic_only(r, pk)
    keep = pk.copy()
    ctx.note({"n": n, "N": N, "knowledge": pk.tolist(), "soft": soft})
    arg = {"apply_prior_knowledge_softly": True} if soft else {}
    if kernel:
        arg["measure"] = "kernel"
    ok, m = ctx.call("construct", lambda: lingam.DirectLiNGAM(prior_knowledge=pk, **arg))
    if not ok:
        return
    sets = [X, X, data(r, n, N)[3], X]
    first = None
    for k, D in enumerate(sets):
        ok, _ = ctx.call("fit", m.fit, D)
        if not ok:
            return
        ctx.event("fits" if k == 0 else "refits")
        key = ("soft" if soft else "hard") + ("/refit" if k else "")
        order, B = [int(v) for v in m.causal_order_], m.adjacency_matrix_
        judge(ctx, key, D, order, B, pk, n, soft)
        if k == 0:
            first = order, B
            ctx.state(pk.tolist(), order)
        elif D is X:
            ctx.check(order == first[0] and np.allclose(B, first[1]), key + "/differs", lambda: f"order {first[0]} at first, then {order}")
        if not soft:
            nb = R.order_faults(D, order, kernel, allowed=lambda c, U: not any(pk[c, u] == 1 or (pk[u, c] == 0 and pk[c, u] != 0) for u in U if u != c))
            ctx.event("order_steps", n)
            ctx.check(not nb, key + "/order-not-best", lambda: f"order {order} knowledge {pk.tolist()} steps {nb}")
    ctx.check(np.array_equal(pk, keep), "prior-knowledge-changed")
    if r.random() < .4:
        q = 4
        ok, res = ctx.call("bootstrap", m.bootstrap, X, q)
        if ok:
            ctx.event("bootstraps")
            for B in res.adjacency_matrices_:
                ctx.check(not np.any((pk == 0) & (B != 0)), "bootstrap/forbidden-edge", lambda: f"{B.tolist()} knowledge {pk.tolist()}")
                if not soft:
                    C = closure(n, {(i, j) for j in range(n) for i in range(n) if B[j, i] != 0})
                    ctx.check(not any(pk[a, b] == 1 and (a, b) in C for a in range(n) for b in range(n)), "bootstrap/against-order", lambda: f"{B.tolist()} knowledge {pk.tolist()}")


def judge(ctx, key, X, order, B, pk, n, soft):
    pos = {v: k for k, v in enumerate(order)}
    ctx.check(sorted(order) == list(range(n)), key + "/order", str(order))
    if not soft:
        for to in range(n):
            for fr in range(n):
                if to != fr and pk[to, fr] == 1:
                    ctx.event("known_paths")
                    ctx.check(pos[fr] < pos[to], key + "/path-against-order", lambda: f"{fr} has a path to {to}, order {order}")
                if to != fr and pk[to, fr] == 0 and pk[fr, to] != 0:
                    ctx.check(pos[to] < pos[fr], key + "/no-path-against-order", lambda: f"{fr} has no path to {to}, order {order}")
    ctx.event("known_no_paths", int((pk == 0).sum()))
    ctx.check(not np.any((pk == 0) & (B != 0)), key + "/forbidden-edge", lambda: f"{B.tolist()} knowledge {pk.tolist()}")
    coef_checks(ctx, key, X, order, B, pk)


def useful(ctx):
    """correct and sufficient knowledge gives the truth even for Gaussian noise; wrong shapes and contradictions are refused"""
    r = ctx.rng
    n = int(r.integers(2, 6))
    E = gen.rand_dag(r, n)
    X, W = gen.sem_linear(r, n, E, 4000, noise="gauss", lo=.8, hi=1.5)
    C = closure(n, E)
    pk = np.array([[-1 if a == b else (1 if (b, a) in C else 0) for b in range(n)] for a in range(n)])
    ctx.note({"edges": sorted(E)})
    for soft in (False, True):
        ok, m = ctx.call("fit", lambda: lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(X))
        if not ok:
            return
        pos = {int(v): k for k, v in enumerate(m.causal_order_)}
        ctx.event("full_knowledge")
        ctx.check(all(pos[a] < pos[b] for a, b in C), "full/order", lambda: f"{sorted(E)}: {m.causal_order_} soft={soft}")
        ctx.check(np.allclose(m.adjacency_matrix_, W, atol=.15), "full/coefficients", lambda: f"{sorted(E)}: {m.adjacency_matrix_.round(2).tolist()} soft={soft}")
    ctx.state(sorted(E))
    bad = np.full((n, n), -1)
    bad[0, 1] = bad[1, 0] = 1
    for what, f in (("shape", lambda: lingam.DirectLiNGAM(prior_knowledge=np.full((n + 1, n + 1), -1)).fit(X)), ("contradiction", lambda: lingam.DirectLiNGAM(prior_knowledge=bad))):
        try:
            f()
            ctx.fail("accepted/" + what, "no error")
        except ValueError:
            ctx.event("refused")


STREAMS = {
    "matrix": Stream(matrix, 200, 5000, need=["matrices"]),
    "hard": Stream(fits, 120, 3000, need=["fits", "refits", "known_paths", "known_no_paths", "unordered_pair_only", "bootstraps"]),
    "soft": Stream(lambda c: fits(c, True), 60, 1500, need=["fits", "refits", "known_no_paths"]),
    "kernel": Stream(lambda c: fits(c, False, True), 12, 200, need=["fits"], timeout=120),
    "useful": Stream(useful, 40, 800, need=["full_knowledge", "refused"]),
}
