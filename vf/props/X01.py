"""Every method as one step of a longer session: inputs and global state stay as they were, equal data give equal results."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import warnings

import numpy as np
import sklearn.gaussian_process  # noqa: F401  third-party packages touch global state when first imported; that is not the library's doing
import sklearn.linear_model  # noqa: F401
import statsmodels.api  # noqa: F401
import torch

from causallearn.graph.GeneralGraph import GeneralGraph
from causallearn.graph.GraphClass import CausalGraph
from causallearn.utils.PCUtils.BackgroundKnowledge import BackgroundKnowledge

from .. import gen, lib
from ..core import REPO, VERIF, Stream

ID = "X01"
RULE = ("a case = a session of several methods on several data sets (fresh, repeated, read-only, reused buffer, other memory order, other process); "
        "non-trivial when a method returns a non-empty result; distinct by method and result")
ASSUMPTIONS = ["methods that draw random numbers are compared under equal seeds of the global generators", "floating point results are compared with relative tolerance 1e-6",
               "for another memory order only methods without iterative optimisation are compared"]

R = {}      # name -> (make inputs, run, flags)


def method(name, make, **flags):
    def put(run):
        R[name] = (make, run, flags)
        return run
    return put


# ---- inputs -------------------------------------------------------------------------------------------------------
def gauss(r, d=(3, 6), N=(80, 250), noise="gauss"):
    n = int(r.integers(*d))
    return gen.sem_linear(r, n, gen.rand_dag(r, n), int(r.integers(*N)), noise=noise)[0]


def m_gauss(r):
    return {"X": gauss(r)}


def m_nong(r):
    return {"X": gauss(r, (2, 5), (120, 250), "uniform")}


def m_nong_small(r):
    return {"X": gauss(r, (2, 4), (60, 90), "uniform")}


def m_disc(r):
    n = int(r.integers(3, 5))
    return {"X": gen.sem_discrete(r, n, gen.rand_dag(r, n), int(r.integers(100, 300)))[0]}


def m_miss(r):
    X = gauss(r, (3, 5), (200, 400))
    X[r.random(X.shape) < .08] = np.nan
    return {"X": X}


def m_bk(r):
    X = gauss(r)
    d = X.shape[1]
    nodes = lib.make_nodes([f"X{i + 1}" for i in range(d)])
    bk = BackgroundKnowledge()
    for v in nodes:
        bk.add_node_to_tier(v, int(r.integers(0, 2)))
    i, j = (int(v) for v in r.choice(d, 2, replace=False))
    bk.add_forbidden_by_node(nodes[i], nodes[j])
    return {"X": X, "bk": bk, "names": [f"X{i + 1}" for i in range(d)]}


def m_names(r):
    X = gauss(r)
    return {"X": X, "names": [f"N{r.integers(1000)}_{i}" for i in range(X.shape[1])]}


def m_cdnod(r):
    X = gauss(r, (2, 4), (150, 250))
    c = np.linspace(0, 1, len(X))[:, None]
    X[:, 0] += 3 * c[:, 0]
    return {"X": X, "c": c}


def m_pair(r, N=(30, 60)):
    x = r.uniform(-1, 1, int(r.integers(*N)))
    return {"X": x[:, None], "Y": (x + x ** 3 + .3 * r.uniform(-1, 1, len(x)))[:, None]}


def m_pk(r):
    X = gauss(r, (3, 5), (120, 250), "uniform")
    d = X.shape[1]
    pk = -np.ones((d, d), dtype=int)
    o = r.permutation(d)
    pk[o[0], o[1:]] = 0
    return {"X": X, "pk": pk}


def m_series(r):
    d, T = int(r.integers(2, 4)), int(r.integers(120, 220))
    X = r.uniform(-1, 1, (T, d))
    A = np.tril(r.uniform(-.5, .5, (d, d)))
    for t in range(1, T):
        X[t] += A @ X[t - 1]
    return {"X": X}


def m_series2(r):
    return {"X": m_series(r)["X"][:, :2].copy()}


def m_groups(r):
    n = int(r.integers(2, 4))
    E = gen.rand_dag(r, n)
    return {"X": gen.sem_linear(r, n, E, 120, noise="uniform")[0], "Y": gen.sem_linear(r, n, E, 150, noise="uniform")[0]}


def m_panel(r):
    X = m_nong_small(r)["X"]
    return {"X": X, "Y": np.ascontiguousarray(.5 * X + r.uniform(-1, 1, X.shape))}


def m_latent(r):
    N = int(r.integers(120, 200))
    L1 = r.exponential(1, N)
    L2 = 1.5 * L1 + r.exponential(1, N)
    return {"X": np.column_stack([w * v + .2 * r.exponential(1, N) for v, w in ((L1, 1), (L1, 1.4), (L2, 1.2), (L2, .9))])}


def m_exact(r):
    X = gauss(r, (3, 5))
    d = X.shape[1]
    S = np.ones((d, d)) - np.eye(d)
    return {"X": X, "super": S}


def m_params(r):
    return {"X": gauss(r, (3, 4), (60, 90)), "params": {"kfold": 5, "lambda": .01}}


# ---- methods ------------------------------------------------------------------------------------------------------
@method("pc", m_gauss, det=True, layout=True)
def _(X):
    from causallearn.search.ConstraintBased.PC import pc
    return pc(X, .05, "fisherz", show_progress=False)


@method("pc/rules", m_names, det=True, layout=True)
def _(X, names):
    from causallearn.search.ConstraintBased.PC import pc
    return [pc(X, .05, "fisherz", True, u, q, show_progress=False, node_names=names) for u, q in ((0, 3), (1, 1), (1, 4), (2, -1))]


@method("pc/background", m_bk, det=True, layout=True)
def _(X, bk, names):
    from causallearn.search.ConstraintBased.PC import pc
    return pc(X, .05, "fisherz", background_knowledge=bk, node_names=names, show_progress=False)


@method("pc/chisq", m_disc, det=True, layout=True, ints=True)
def _(X):
    from causallearn.search.ConstraintBased.PC import pc
    return pc(X, .05, "chisq", show_progress=False)


@method("pc/gsq", m_disc, det=True, layout=True, ints=True)
def _(X):
    from causallearn.search.ConstraintBased.PC import pc
    return pc(X, .05, "gsq", stable=False, show_progress=False)


@method("pc/kci", m_nong_small, det=True)
def _(X):
    from causallearn.search.ConstraintBased.PC import pc
    return pc(X, .05, "kci", show_progress=False)


@method("pc/missing", m_miss, layout=True)
def _(X):
    from causallearn.search.ConstraintBased.PC import pc
    return pc(X, .05, "mv_fisherz", mvpc=True, show_progress=False)


@method("fci", m_names, det=True, layout=True)
def _(X, names):
    from causallearn.search.ConstraintBased.FCI import fci
    return fci(X, "fisherz", .05, show_progress=False, node_names=names)


@method("fci/background", m_bk, det=True, layout=True)
def _(X, bk, names):
    from causallearn.search.ConstraintBased.FCI import fci
    return fci(X, "fisherz", .05, background_knowledge=bk, show_progress=False, node_names=names)


@method("cdnod", m_cdnod, det=True, layout=True)
def _(X, c):
    from causallearn.search.ConstraintBased.CDNOD import cdnod
    return cdnod(X, c, .05, "fisherz", show_progress=False)


@method("ges", m_names, det=True, layout=True)
def _(X, names):
    from causallearn.search.ScoreBased.GES import ges
    return ges(X, "local_score_BIC", node_names=names)


@method("ges/discrete", m_disc, det=True, layout=True, ints=True)
def _(X):
    from causallearn.search.ScoreBased.GES import ges
    return ges(X, "local_score_BDeu")


@method("ges/kernel", m_params, det=True, slow=True)
def _(X, params):
    from causallearn.search.ScoreBased.GES import ges
    return ges(X[:, :2], "local_score_CV_general", parameters=params)


@method("exact/astar", m_exact, det=True, layout=True)
def _(X, super):
    from causallearn.search.ScoreBased.ExactSearch import bic_exact_search
    return bic_exact_search(X, super_graph=super, search_method="astar", use_k_cycle_heuristic=True, k=2)[0]


@method("exact/dp", m_exact, det=True, layout=True)
def _(X, super):
    from causallearn.search.ScoreBased.ExactSearch import bic_exact_search
    return bic_exact_search(X, search_method="dp", max_parents=2)[0]


@method("boss", m_names, layout=True)
def _(X, names):
    from causallearn.search.PermutationBased.BOSS import boss
    return boss(X, verbose=False, node_names=names)


@method("grasp", m_names, layout=True)
def _(X, names):
    from causallearn.search.PermutationBased.GRaSP import grasp
    return grasp(X, verbose=False, node_names=names)


@method("grasp/bdeu", m_disc, layout=True)
def _(X):
    from causallearn.search.PermutationBased.GRaSP import grasp
    return grasp(X, score_func="local_score_BDeu", verbose=False)


@method("iamb", m_gauss, det=True, layout=True)
def _(X):
    from causallearn.utils.MarkovNetwork.iamb import iamb_markov_network
    return iamb_markov_network(X, .05)


@method("calm", m_gauss, slow=True)
def _(X):
    from causallearn.search.ScoreBased.CALM import calm
    return calm(X[:, :3], subproblem_iter=8, rho_mult=1e4)


@method("direct", m_nong, det=True, layout=True)
def _(X):
    from causallearn.search.FCMBased import lingam
    m = lingam.DirectLiNGAM()
    m.fit(X)
    return m.causal_order_, m.adjacency_matrix_, m.get_error_independence_p_values(X), m.estimate_total_effect(X, m.causal_order_[0], m.causal_order_[-1])


@method("direct/prior", m_pk, det=True, layout=True)
def _(X, pk):
    from causallearn.search.FCMBased import lingam
    m = lingam.DirectLiNGAM(prior_knowledge=pk)
    m.fit(X)
    return m.causal_order_, m.adjacency_matrix_


@method("direct/bootstrap", m_nong_small)
def _(X):
    from causallearn.search.FCMBased import lingam
    b = lingam.DirectLiNGAM().bootstrap(X, 3)
    return b.adjacency_matrices_, b.total_effects_


@method("ica", m_nong, det=True)
def _(X):
    from causallearn.search.FCMBased import lingam
    m = lingam.ICALiNGAM(random_state=3)
    m.fit(X)
    return m.causal_order_, m.adjacency_matrix_


@method("var", m_series, det=True, layout=True)
def _(X):
    from causallearn.search.FCMBased import lingam
    m = lingam.VARLiNGAM(lags=2, prune=True)
    m.fit(X)
    return m.causal_order_, m.adjacency_matrices_, m.residuals_


@method("varma", m_series, det=True, slow=True)
def _(X):
    from causallearn.search.FCMBased import lingam
    d = X.shape[1]
    m = lingam.VARMALiNGAM(order=(1, 1), criterion=None, ar_coefs=[.3 * np.eye(d)], ma_coefs=[.2 * np.eye(d)])
    m.fit(X)
    return m.causal_order_, m.adjacency_matrices_, m.residuals_


@method("groups", m_groups, det=True, layout=True)
def _(X, Y):
    from causallearn.search.FCMBased import lingam
    m = lingam.MultiGroupDirectLiNGAM()
    m.fit([X, Y])
    return m.causal_order_, m.adjacency_matrices_


@method("panel", m_panel, det=True, layout=True)
def _(X, Y):
    from causallearn.search.FCMBased import lingam
    m = lingam.LongitudinalLiNGAM(n_lags=1)
    m.fit([X, Y])
    return m.causal_orders_, m.adjacency_matrices_


@method("rcd", m_nong_small, det=True)
def _(X):
    from causallearn.search.FCMBased import lingam
    m = lingam.RCD()
    m.fit(X)
    return m.adjacency_matrix_, m.ancestors_list_


@method("parce", m_nong_small, det=True)
def _(X):
    from causallearn.search.FCMBased import lingam
    m = lingam.BottomUpParceLiNGAM()
    m.fit(X)
    return m.causal_order_, m.adjacency_matrix_


@method("camuv", m_nong_small, det=True, slow=True)
def _(X):
    from causallearn.search.FCMBased.lingam import CAMUV
    return CAMUV.execute(X, .01, 2)


@method("anm", m_pair, det=True)
def _(X, Y):
    from causallearn.search.FCMBased.ANM.ANM import ANM
    return [float(v) for v in ANM().cause_or_effect(X, Y)]


@method("pnl", m_pair, det=True)
def _(X, Y):
    from causallearn.search.FCMBased.PNL.PNL import PNL
    return [np.ravel(v).astype(float) for v in PNL(epochs=2).cause_or_effect(X, Y)]


@method("gin", m_latent, det=True)
def _(X):
    from causallearn.search.HiddenCausal.GIN.GIN import GIN
    return GIN(X, "hsic", .05)


@method("gin/mi", m_latent, det=True)
def _(X):
    from causallearn.search.HiddenCausal.GIN.GIN import GIN_MI
    return GIN_MI(X)


@method("granger", m_series2, det=True, layout=True)
def _(X):
    from causallearn.search.Granger.Granger import Granger
    return Granger(maxlag=2).granger_test_2d(X)


@method("granger/lasso", m_series, det=True)
def _(X):
    from causallearn.search.Granger.Granger import Granger
    return Granger(maxlag=2).granger_lasso(X)


@method("cit/kci", m_nong_small, det=True)
def _(X):
    from causallearn.utils.cit import CIT
    c = CIT(X, "kci")
    return [float(c(0, 1)), float(c(1, 0, [2]) if X.shape[1] > 2 else c(1, 0))]


@method("scores", m_gauss, det=True, layout=True)
def _(X):
    from causallearn.score.LocalScoreFunction import local_score_BIC, local_score_BIC_from_cov
    C = np.cov(X.T)
    return [float(local_score_BIC(X, 0, [1, 2], None)), float(local_score_BIC_from_cov((C, len(X)), 0, [1], None))]


# ---- comparison ---------------------------------------------------------------------------------------------------
def canon(v):
    """nested plain python: names, edges and numbers"""
    if isinstance(v, CausalGraph):
        return ("cg", canon(v.G))
    if isinstance(v, GeneralGraph):
        return ("graph", [x.get_name() for x in v.get_nodes()], sorted(str(e) for e in v.get_graph_edges()))
    if type(v).__name__ == "Edge":
        return ("edge", str(v))
    if isinstance(v, BackgroundKnowledge):
        return ("bk", canon(vars(v)))
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, [canon(x) for x in v.ravel()] if v.dtype == object else [float(x) for x in v.ravel()])
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, dict):
        return ("dict", sorted(((str(k), canon(x)) for k, x in v.items()), key=lambda t: t[0]))
    if isinstance(v, (set, frozenset)):
        return ("set", sorted((canon(x) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if v is None or isinstance(v, str):
        return v
    if hasattr(v, "get_name"):
        return ("node", v.get_name())
    return ("obj", type(v).__name__)


DROP = {"PC_elapsed", "record", "step1", "step2", "update1", "update2", "G_step1", "G_step2"}


def result(v):
    if isinstance(v, dict):
        v = {k: x for k, x in v.items() if k not in DROP}
    return canon(v)


def same(a, b, tol=1e-6):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1e-3, abs(a), abs(b))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


ENV = ("CUDA_VISIBLE_DEVICES", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "PYTHONHASHSEED", "PYTHONWARNINGS")
BROAD = (Warning, UserWarning, RuntimeWarning, FutureWarning, DeprecationWarning)


def state():
    """settings of the process that belong to the user (third-party packages may add entries about themselves)"""
    return {"errstate": tuple(sorted(np.geterr().items())), "print": repr(np.get_printoptions()), "filters": tuple(f[:1] + f[2:3] for f in warnings.filters if f[1] is None and f[3] is None and f[2] in BROAD), "dtype": str(torch.get_default_dtype()),
            "grad": torch.is_grad_enabled(), "threads": torch.get_num_threads(), "cwd": os.getcwd(), "files": tuple(sorted(os.listdir("."))), "env": tuple((k, os.environ.get(k)) for k in ENV),
            "recursion": sys.getrecursionlimit()}


def seed(s):
    random.seed(s)
    np.random.seed(s % (1 << 32))
    torch.manual_seed(s)


FAIL = object()


def step(ctx, name, inp, s, what):
    """one method call under the state monitors"""
    run = R[name][1]
    inp0 = {k: canon(v) for k, v in inp.items()}
    seed(s)
    s0 = state()
    ok, g = ctx.call(f"{name}/{what}", run, **inp)
    s1 = state()
    ctx.event("calls")
    ctx.event(f"method:{name.split('/')[0]}")
    for k in s0:
        ctx.check(s0[k] == s1[k], f"state/{k}/{name}", lambda: f"{name} ({what}) changed {k}: {str(s0[k])[:300]} -> {str(s1[k])[:300]}")
    for k in inp:
        ctx.check(same(inp0[k], canon(inp[k]), 0), f"input/{name}/{k}", lambda: f"{name} ({what}) changed its argument {k}: {str(inp0[k])[:300]} -> {str(canon(inp[k]))[:300]}")
    return result(g) if ok else FAIL


def pick(r, k, slow=.25):
    names = [n for n in sorted(R) if not R[n][2].get("slow") or r.random() < slow]
    return [str(v) for v in r.choice(names, min(k, len(names)), replace=False)]


def session(ctx):
    r = ctx.rng
    names = pick(r, 3)
    ctx.note({"session": names})
    jobs = []
    for n in names:
        inp = R[n][0](r)
        s = int(r.integers(1 << 30))
        ref = step(ctx, n, copy.deepcopy(inp), s, "first")
        if ref is FAIL:
            return
        ctx.state(n, repr(ref)[:5000])
        jobs.append((n, inp, s, ref))
    # again, in another order, after the others
    for k in r.permutation(len(jobs)):
        n, inp, s, ref = jobs[k]
        flags = R[n][2]
        g = step(ctx, n, copy.deepcopy(inp), s, "again")
        ctx.event("again")
        ctx.check(g is FAIL or same(ref, g), f"again/{n}", lambda: f"{n} first {str(ref)[:600]}, again after {names} {str(g)[:600]}")
        if flags.get("det"):
            g = step(ctx, n, copy.deepcopy(inp), s + 1, "other seed")
            ctx.event("other_seed")
            ctx.check(g is FAIL or same(ref, g), f"seed/{n}", lambda: f"{n} {str(ref)[:600]}, under another state of the global generators {str(g)[:600]}")
        ro = copy.deepcopy(inp)
        for v in ro.values():
            if isinstance(v, np.ndarray):
                v.setflags(write=False)
        g = step(ctx, n, ro, s, "read-only")
        ctx.event("read_only")
        ctx.check(g is FAIL or same(ref, g), f"read-only/{n}", lambda: f"{n} {str(ref)[:600]}, on a read-only copy {str(g)[:600]}")
        if flags.get("layout"):
            fo = {k: np.asfortranarray(v) if isinstance(v, np.ndarray) else v for k, v in copy.deepcopy(inp).items()}
            g = step(ctx, n, fo, s, "memory order")
            ctx.event("memory_order")
            ctx.check(g is FAIL or same(ref, g), f"memory-order/{n}", lambda: f"{n} {str(ref)[:600]}, on a column-major copy {str(g)[:600]}")
        if flags.get("ints"):
            it = {k: v.astype(str(r.choice(["int32", "int64", "float64"]))) for k, v in inp.items()}
            g = step(ctx, n, it, s, "number type")
            ctx.event("number_type")
            ctx.check(g is FAIL or same(ref, g), f"number-type/{n}", lambda: f"{n} {str(ref)[:600]}, as {it['X'].dtype} {str(g)[:600]}")


def reused(ctx):
    """the same array object refilled with other data is treated as the other data"""
    r = ctx.rng
    n = pick(r, 1, .1)[0]
    make = R[n][0]
    a = make(r)
    b = copy.deepcopy(a)
    X = b["X"]
    X[...] = X[r.integers(0, len(X), len(X))]
    if "Y" not in b and X.dtype.kind == "f":
        X[:, 0] += .4 * X[:, -1] * np.sign(r.normal())
    s = int(r.integers(1 << 30))
    want = step(ctx, n, copy.deepcopy(b), s, "other data")
    if want is FAIL:
        return
    buf = copy.deepcopy(a)
    first = step(ctx, n, buf, s, "buffer")
    buf["X"][...] = b["X"]
    g = step(ctx, n, buf, s, "refilled buffer")
    ctx.event("refilled")
    ctx.note({"method": n})
    if first is not FAIL and not same(first, want):
        ctx.event("results_differ")
        ctx.state(n, repr(want)[:5000])
    ctx.check(g is FAIL or same(want, g), f"refilled/{n}", lambda: f"{n} {str(want)[:600]} on its own, but {str(g)[:600]} in a refilled array")


CHILD = """
import sys, pickle, warnings, io, contextlib, os
warnings.simplefilter("ignore")
sys.path.insert(0, {repo!r}); sys.path.insert(0, {verif!r})
from vf.props import X01
out = []
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    for n, inp, s in pickle.load(sys.stdin.buffer):
        X01.seed(s)
        try:
            out.append(X01.result(X01.R[n][1](**inp)))
        except Exception as e:
            out.append(("raised", repr(e)[:300]))
os.write(1, pickle.dumps(out))
"""


def process(ctx):
    """another process, other hash seed, other order"""
    r = ctx.rng
    names = pick(r, 10, .4)
    jobs, ref = [], []
    for n in names:
        inp, s = R[n][0](r), int(r.integers(1 << 30))
        g = step(ctx, n, copy.deepcopy(inp), s, "here")
        if g is FAIL:
            return
        jobs.append((n, inp, s))
        ref.append(g)
        ctx.state(n, repr(g)[:5000])
    order = [int(v) for v in r.permutation(len(jobs))]
    env = dict(os.environ, PYTHONHASHSEED=str(int(r.integers(1, 1 << 30))), PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env.setdefault(v, "1")
    p = subprocess.run([sys.executable, "-c", CHILD.format(repo=REPO, verif=VERIF)], input=pickle.dumps([jobs[k] for k in order]), capture_output=True, env=env)
    if p.returncode != 0:
        raise RuntimeError(p.stderr.decode()[-1500:])
    out = pickle.loads(p.stdout)
    ctx.note({"methods": names, "hash_seed": env["PYTHONHASHSEED"]})
    for k, g in zip(order, out):
        ctx.event("other_process")
        ctx.check(same(ref[k], g), f"process/{names[k]}", lambda: f"{names[k]} {str(ref[k])[:700]}, in another process {str(g)[:700]}")


STREAMS = {
    "process": Stream(process, 10, 120, need=["other_process"], timeout=240, heavy=True),
    "session": Stream(session, 90, 1500, need=["calls", "again", "other_seed", "read_only", "memory_order", "number_type"], timeout=120),
    "reused": Stream(reused, 90, 1500, need=["refilled", "results_differ"], timeout=90),
}
