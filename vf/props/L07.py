"""Pairwise cause-effect methods ANM and PNL: p-values of an independence test between assumed cause and estimated noise."""
import warnings

import numpy as np
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel

from causallearn.search.FCMBased.ANM.ANM import ANM
from causallearn.search.FCMBased.PNL.PNL import PNL

from ..core import Stream
from .L06 import hsic_ref
from .T03 import kci_ref

ID = "L07"
RULE = ("a case = one pair of variables tested in both directions (and with the arguments swapped); non-trivial when a p-value is strictly between 0 and 1; "
        "distinct by p-values")
ASSUMPTIONS = ["the Gaussian process regression itself is scikit-learn's; the independence p-value is compared with a closed-form reference (tolerance 1e-4)",
               "PNL's networks are observed as trained; only the test on what they return is judged, where a reference test is beyond doubt"]


def pair(r, N, kind):
    x = r.uniform(-1, 1, N) * 2
    e = r.uniform(-1, 1, N)
    y = {"cubic": x + x ** 3 + e, "square": x ** 2 + .4 * e, "exp": np.exp(x) + .7 * e, "linear": x + e, "none": e, "tanh": 3 * np.tanh(2 * x) + .5 * e}[kind]
    return x, y


def gp_noise(x, y):
    k = ConstantKernel(1.0, (1e-3, 1e3)) * RBF(1.0, (1e-2, 1e2)) + WhiteKernel(.1, (1e-10, 1e1))
    return y - GaussianProcessRegressor(kernel=k).fit(x[:, None], y).predict(x[:, None])


def anm(ctx):
    r = ctx.rng
    N = int(r.choice([25, 40, 60]))
    kind = str(r.choice(["cubic", "square", "exp", "linear", "none", "tanh"]))
    x, y = pair(r, N, kind)
    kx, ky = (str(r.choice(["Gaussian", "Gaussian", "Linear", "Polynomial"])) for _ in range(2))
    X, Y = x[:, None].copy(), y[:, None].copy()
    m = ANM(kernelX=kx, kernelY=ky)
    np.random.seed(int(r.integers(1 << 30)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, g = ctx.call("ANM.cause_or_effect", m.cause_or_effect, X, Y)
        if not ok:
            return
        ctx.event("anm")
        ctx.check(np.array_equal(X[:, 0], x) and np.array_equal(Y[:, 0], y), "anm/data-changed")
        p = [float(v) for v in g]
        c = {"kernelX": kx, "kernelY": ky}
        ey, ex = gp_noise(x, y), gp_noise(y, x)
        want = [kci_ref(x[:, None], ey[:, None], None, c)[1], kci_ref(y[:, None], ex[:, None], None, c)[1]]
        ctx.note({"N": N, "kind": kind, "kernels": [kx, ky], "p": p, "reference": want})
        for v in p:
            ctx.check(-1e-9 <= v <= 1 + 1e-9, "anm/p-range", lambda: str(p))
            if 1e-9 < v < 1 - 1e-9:
                ctx.state(round(v, 8))
        ctx.check(abs(p[0] - want[0]) < 1e-4 and abs(p[1] - want[1]) < 1e-4, "anm/p-value", lambda: f"{p}, should be {want}")
        q = [float(v) for v in ANM(kernelX=kx, kernelY=ky).cause_or_effect(Y, X)]
        ctx.event("swapped")
        ctx.check(abs(q[0] - p[1]) < 1e-9 and abs(q[1] - p[0]) < 1e-9, "anm/swapped", lambda: f"{p}, swapped arguments {q}")
        m.cause_or_effect(r.normal(size=(20, 1)), r.normal(size=(20, 1)))
        q = [float(v) for v in m.cause_or_effect(X, Y)]
        ctx.check(max(abs(a - b) for a, b in zip(p, q)) < 1e-9, "anm/reused", lambda: f"{p}, again {q}")


def anm_truth(ctx):
    """true direction accepted, wrong direction rejected"""
    r = ctx.rng
    bad = None
    for _ in range(3):
        kind = str(r.choice(["square", "cubic", "tanh"]))
        x, y = pair(r, 250, kind)
        a, b = (x - x.mean()) / x.std(), (y - y.mean()) / y.std()
        swap = r.random() < .5
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok, g = ctx.call("ANM.cause_or_effect", ANM().cause_or_effect, *((b[:, None], a[:, None]) if swap else (a[:, None], b[:, None])))
        if not ok:
            return
        f, w = (g[1], g[0]) if swap else g
        ctx.event("anm_truth")
        ctx.state(kind, round(float(f), 8))
        if f > .001 and w < 1e-3:
            return
        bad = ("anm/truth", f"{kind}: true direction p={f}, wrong direction p={w}")
        ctx.event("resampled")
    ctx.fail(*bad)


def pnl(ctx):
    import torch
    r = ctx.rng
    N = int(r.choice([128, 140, 260]))
    kind = str(r.choice(["cubic", "square", "exp", "linear", "none", "tanh"]))
    x, y = pair(r, N, kind)
    X, Y = x[:, None].copy(), y[:, None].copy()
    m = PNL(epochs=int(r.choice([1, 3])))
    log = []
    orig = m.nica_mnd

    def watch(data, *a, **k):
        data0 = np.array(data)
        out = orig(data, *a, **k)
        log.append((data0, *(np.asarray(t.detach()).ravel().astype(float) for t in out)))
        return out

    m.nica_mnd = watch
    torch.manual_seed(int(r.integers(1 << 30)))
    ok, g = ctx.call("PNL.cause_or_effect", m.cause_or_effect, X, Y)
    if not ok:
        return
    p = [float(np.ravel(v)[0]) for v in g]
    ctx.event("pnl")
    ctx.note({"N": N, "kind": kind, "p": p})
    ctx.check(np.array_equal(X[:, 0], x) and np.array_equal(Y[:, 0], y), "pnl/data-changed")
    ctx.check(all(0 <= v <= 1 for v in p), "pnl/p-range", lambda: str(p))
    ctx.state(p, kind)
    np.random.seed(5)
    torch.manual_seed(7)
    q = [float(np.ravel(v)[0]) for v in PNL(epochs=m.epochs).cause_or_effect(X, Y)]
    ctx.event("pnl_repeated")
    ctx.check(p == q, "pnl/not-reproducible", lambda: f"{p} then {q}")
    ctx.check(len(log) == 2, "pnl/directions", lambda: f"{len(log)} fits")
    if len(log) != 2:
        return
    from scipy.stats import ttest_ind
    for k, (cause, eff) in enumerate(((x, y), (y, x))):
        data, c, e = log[k]
        ctx.event("pnl_directions")
        ctx.check(np.allclose(data, np.column_stack([cause, eff])) and np.allclose(c, cause, atol=1e-4), "pnl/wrong-columns", lambda: f"direction {k}")
        if np.std(e) < 1e-9:
            continue
        ref = hsic_ref(c, e)[1]
        ctx.event("pnl_dependent" if ref < 1e-6 else "pnl_independent" if ref > .05 else "pnl_open")
        if ref < 1e-6 and p[k] > .05 or ref > .05 and p[k] < 1e-3:
            key = "pnl/compares-means" if abs(p[k] - ttest_ind(c, e)[1]) < 2e-3 else "pnl/not-an-independence-test"
            ctx.fail(key, f"direction {k}: p {p[k]}, but an independence test of assumed cause and estimated noise gives {ref}")


def pnl_train(ctx):
    """training adapts the networks to the data, whatever the sample size"""
    import torch
    r = ctx.rng
    N = int(r.choice([30, 100, 127, 128, 129, 200]))
    x, y = pair(r, N, str(r.choice(["cubic", "linear", "tanh"])))
    data = np.column_stack([x, y])
    seed, es = int(r.integers(1 << 30)), []
    for epochs in (0, 30, 30):
        torch.manual_seed(seed)
        ok, g = ctx.call("PNL.nica_mnd", PNL().nica_mnd, data, epochs)
        if not ok:
            return
        es.append(np.asarray(g[1].detach()).ravel().astype(float))
    ctx.event("pnl_trained")
    ctx.state(N, np.round(es[1][:3], 8).tolist())
    ctx.check(len(es[1]) == N and np.all(np.isfinite(es[1])), "pnl/noise-shape", lambda: f"{len(es[1])} values for {N}")
    ctx.check(np.array_equal(es[1], es[2]), "pnl/training-not-reproducible")
    ctx.check(np.max(np.abs(es[1] - es[0])) > 1e-4, "pnl/not-trained", lambda: f"N={N}: 30 epochs leave the estimated noise as initialised")


STREAMS = {
    "anm": Stream(anm, 120, 3000, need=["anm", "swapped"], timeout=90),
    "anm_truth": Stream(anm_truth, 24, 500, need=["anm_truth"], timeout=120),
    "pnl_train": Stream(pnl_train, 12, 200, need=["pnl_trained"], timeout=60),
    "pnl": Stream(pnl, 40, 800, need=["pnl", "pnl_repeated", "pnl_directions", "pnl_dependent"], timeout=120),
}
