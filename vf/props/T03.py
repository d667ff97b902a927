"""Kernel independence tests: KCI equals its definition, randomised variants have the right law, all are calibrated."""
import itertools

import numpy as np
from momentchi2 import hbe, lpb4, sw
from scipy import stats
from scipy.linalg import pinv

from causallearn.utils.cit import CIT

from ..core import Stream

ID = "T03"
RULE = ("a case = one data set (null, linear, nonlinear or heteroscedastic dependence; one- or multi-dimensional arguments) and one test configuration; "
        "non-trivial when the p-value is strictly between 0 and 1; distinct by p-value and configuration")
ASSUMPTIONS = ["closed-form reference for KCI with gamma approximation (tolerance 1e-4 on p)",
               "randomised tests are compared in distribution with a reference implementation (two-sample Kolmogorov-Smirnov, level 1e-8)",
               "calibration and power bounds are far beyond binomial fluctuation (below 1e-7 per case)"]


def _z(A):
    A = A.astype(float)
    s = A.std(0, ddof=1)
    return np.where(s > 0, (A - A.mean(0)) / np.where(s > 0, s, 1), 0.0)


def _sq(A):
    return ((A[:, None, :] - A[None, :, :]) ** 2).sum(-1)


def _ctr(K):
    H = np.eye(len(K)) - 1.0 / len(K)
    return H @ K @ H


def _kern(kind, A, c, which, cond, dz, raw=None):
    n = len(A)
    if kind == "Polynomial":
        return (1 + A @ A.T) ** c.get("polyd", 2)
    if kind == "Linear":
        return A @ A.T
    D = _sq(A)
    w = c.get("est_width", "empirical")
    if w == "manual":
        g = 1 / c["kwidth" + which] ** 2
    elif w == "median":
        d = np.sqrt(D if raw is None else _sq(raw))
        g = 1 / (2 * np.median(d[d > 0]) ** 2)
    elif cond:
        g = 1 / ({0: 1.2, 1: .7, 2: .4}[(n >= 200) + (n >= 1200)] ** 2) / dz
    else:
        g = 1 / ({0: .8, 1: .5, 2: .3}[(n >= 200) + (n >= 1200)] ** 2) * A.shape[1]
    return np.exp(-.5 * g * D)


def _trunc(K, t):
    w, v = np.linalg.eigh((K + K.T) / 2)
    k = w > w.max() * t
    return (v[:, k] * w[k]) @ v[:, k].T


def kci_ref(X, Y, Z, c, raw=False):
    """(statistic, gamma-approximate p, eigenvalues of the null); raw: unconditional median widths from the data as given (a recorded defect)"""
    rx, ry = (X, Y) if raw else (None, None)
    X, Y = _z(X), _z(Y)
    n = len(X)
    if Z is None:
        A = _ctr(_kern(c.get("kernelX", "Gaussian"), X, c, "x", False, None, rx))
        B = _ctr(_kern(c.get("kernelY", "Gaussian"), Y, c, "y", False, None, ry))
        st = (A * B).sum()
        m, v = np.trace(A) * np.trace(B) / n, 2 * (A ** 2).sum() * (B ** 2).sum() / n ** 2
        la, lb = np.linalg.eigvalsh(A), np.linalg.eigvalsh(B)
        lam = np.outer(la, lb).ravel() / n
    else:
        Z = _z(Z)
        dz = Z.shape[1]
        A = _ctr(_kern(c.get("kernelX", "Gaussian"), np.column_stack([X, .5 * Z]), c, "x", True, dz))
        B = _ctr(_kern(c.get("kernelY", "Gaussian"), Y, c, "y", True, dz))
        C = _ctr(_kern(c.get("kernelZ", "Gaussian"), Z, c, "z", True, dz))
        R = 1e-3 * pinv(C + 1e-3 * np.eye(n))
        A, B = R @ A @ R, R @ B @ R
        st = (A * B).sum()
        M = _trunc(A, 1e-5) * _trunc(B, 1e-5)
        m, v = np.trace(M), 2 * (M ** 2).sum()
        lam = np.linalg.eigvalsh((M + M.T) / 2)
    lam = lam[lam > lam.max() * 1e-6]
    return st, stats.gamma.sf(st, m * m / v, scale=v / m), lam


def sample(r, n, kind, dx=1, dy=1, dz=0):
    Z = r.normal(size=(n, dz))
    X, Y = r.normal(size=(n, dx)), r.normal(size=(n, dy))
    if dz:
        X = X + np.sin(Z[:, :1]) + .5 * Z[:, -1:]
        Y = Y + Z[:, :1] ** 2 / 2
    if kind == "linear":
        Y[:, 0] += 1.2 * X[:, 0]
    elif kind == "nonlinear":
        Y[:, 0] += 1.5 * X[:, 0] ** 2
    elif kind == "hetero":
        Y[:, 0] *= .2 + np.abs(X[:, 0])
    elif kind == "weak":
        Y[:, 0] += .3 * X[:, 0]
    return X, Y, (Z if dz else None)


KERN = ["Gaussian", "Polynomial", "Linear"]


def config(r):
    c = {}
    if r.random() < .45:
        for k in "XYZ":
            if r.random() < .5:
                c["kernel" + k] = str(r.choice(KERN))
        c["polyd"] = int(r.integers(2, 4))
    w = str(r.choice(["empirical", "median", "manual"]))
    if w != "empirical" or r.random() < .5:
        c["est_width"] = w
    if w == "manual":
        c.update({"kwidth" + k: float(r.uniform(.3, 2.5)) for k in "xyz"})
    return c


def cit_for(X, Y, Z, method, **kw):
    A = np.column_stack([a for a in (X, Y, Z) if a is not None])
    dx, dy = X.shape[1], Y.shape[1]
    xs, ys, zs = list(range(dx)), list(range(dx, dx + dy)), list(range(dx + dy, A.shape[1]))
    return CIT(A, method, **kw), (xs if dx > 1 else xs[0]), (ys if dy > 1 else ys[0]), zs


def kci(ctx):
    r = ctx.rng
    n = int(r.choice([12, 30, 70, 110, 199, 200, 230], p=[.1, .2, .3, .2, .05, .05, .1]))
    dx, dy, dz = int(r.integers(1, 3)), int(r.integers(1, 3)), int(r.integers(0, 3))
    kind = str(r.choice(["null", "weak", "linear", "nonlinear", "hetero"]))
    X, Y, Z = sample(r, n, kind, dx, dy, dz)
    if r.random() < .5:
        X = X * 10 ** r.uniform(-3, 3, dx) + r.normal(size=dx) * 5
        Y = Y * 10 ** r.uniform(-3, 3, dy)
        ctx.event("rescaled")
    if r.random() < .1:
        X[:, 0] = 4.0
        if dx == 1:
            dx, X = 2, np.column_stack([X, r.normal(size=n)])
        ctx.event("constant_column")
    c = config(r)
    ctx.event("conditional" if dz else "unconditional")
    ctx.event("width:" + c.get("est_width", "empirical"))
    ctx.note({"n": n, "dims": [dx, dy, dz], "kind": kind, "config": c})
    st, want, lam = kci_ref(X, Y, Z, c)
    t, x, y, z = cit_for(X, Y, Z, "kci", **c)
    # the test is defined up to which argument comes first; columns of X come first here
    p = float(t(x, y, z))
    ctx.event("p_values")
    raw = False
    if abs(p - want) >= 1e-4 and Z is None and c.get("est_width") == "median":
        alt = kci_ref(X, Y, Z, c, raw=True)
        if abs(p - alt[1]) < 1e-4:
            raw = True
            ctx.fail("kci/median-width-of-raw-data", f"n={n} dims={dx, dy} {kind} {c}: p={p}, should be {want}")
            st, want, lam = alt
    ctx.check(abs(p - want) < 1e-4, "kci/value", f"n={n} dims={dx, dy, dz} {kind} {c}: p={p}, should be {want}")
    ctx.check(float(t(y, x, z)) == p, "kci/order-of-arguments")
    if 0 < want < 1:
        ctx.state(round(want, 6), c)
    o = r.permutation(n)
    X2, Y2, Z2 = X[o] * 3 + 1, Y[o] * -.25 + 7, None if Z is None else Z[o] * 2 - 1
    t2, *_ = cit_for(X2, Y2, Z2, "kci", **c)
    p2 = float(t2(x, y, z))
    ctx.event("invariance")
    if not raw and abs(p2 - want) >= 2e-4 and Z is None and c.get("est_width") == "median" and abs(p2 - kci_ref(X2, Y2, Z2, c, raw=True)[1]) < 1e-4:
        raw = True
        ctx.fail("kci/median-width-of-raw-data", f"n={n} dims={dx, dy} {kind} {c}: p={p2}, should be {want}")
    ctx.check(raw or abs(p2 - want) < 2e-4, "kci/not-invariant", f"{p2} vs {want}")
    # simulated null distribution
    if n <= 110:
        ss = int(r.choice([500, 2000]))
        t3, *_ = cit_for(X, Y, Z, "kci", approx=False, null_ss=ss, **c)
        draws = (np.random.default_rng(1).chisquare(1, (4000, len(lam))) if len(lam) <= 2000 else None)
        if draws is not None:
            ref = float((draws @ lam > st).mean())
            q = float(t3(x, y, z))
            ctx.event("simulated_null")
            ctx.check(abs(q - ref) < 7 * np.sqrt(max(ref * (1 - ref), .002) * (1 / ss + 1 / 4000)) + .005, "kci/simulated-null",
                      f"n={n} {c}: p={q}, should be near {ref}")
            ctx.check(abs(q * ss - round(q * ss)) < 1e-6, "kci/null-sample-size", f"p={q} is not a multiple of 1/{ss}")


def gp(ctx):
    """Gaussian-process bandwidths: no memory between questions, calibrated on easy cases"""
    r = ctx.rng
    n = 50
    res = {}
    for kind in ("null", "linear"):
        X, Y, Z = sample(r, n, kind, 1, 1, 1)
        t, x, y, z = cit_for(X, Y, Z, "kci", use_gp=True)
        p = float(t(x, y, z))
        res[kind] = p
        A = np.column_stack([X, Y, Z])
        u = CIT(np.column_stack([A, r.normal(size=n)]), "kci", use_gp=True)
        u(0, 3, [2])
        u(1, 3, [2])
        ctx.event("p_values")
        ctx.check(0 <= p <= 1 and abs(float(u(0, 1, [2])) - p) < 1e-6, "kci-gp/history", f"asked fresh {p}, after other questions {float(u(0, 1, [2]))}")
    ctx.note(res)
    ctx.check(res["linear"] < .05, "kci-gp/power", f"p={res['linear']} for y = 1.2 x + ...")
    ctx.state(round(res["null"], 6))


def rff(r, A, k, sigma):
    w = r.normal(size=(k, A.shape[1])) / (sigma or 1)
    b = 2 * np.pi * r.uniform(size=(k, 1))
    F = np.sqrt(2) * np.cos(w @ A.T + b).T
    return (F - F.mean(0)) / F.std(0, ddof=1)


def rcit_ref(r, X, Y, Z, approx="lpd4", num_f=100, num_f2=5, rcit=True):
    n = len(X)
    X, Y = ((A - A.mean(0)) / A.std(0, ddof=1) for A in (X, Y))
    med = lambda A: np.median(np.sqrt(_sq(A[:500]))[_sq(A[:500]) > 0])
    if Z is None:
        num_f2 = 5
        fx, fy = rff(r, X, 5, med(X)), rff(r, Y, 5, med(Y))
        rx, ry = fx - fx.mean(0), fy - fy.mean(0)
        C = fx.T @ fy / (n - 1)
    else:
        Z = (Z - Z.mean(0)) / Z.std(0, ddof=1)
        if rcit:
            Y = np.column_stack([Y, Z])
        fz, fx, fy = rff(r, Z, num_f, med(Z)), rff(r, X, num_f2, med(X)), rff(r, Y, num_f2, med(Y))
        P = fz @ np.linalg.inv(np.cov(fz, rowvar=False) + 1e-10 * np.eye(num_f))
        rx, ry = fx - P @ (fz.T @ fx) / (n - 1), fy - P @ (fz.T @ fy) / (n - 1)
        C = rx.T @ ry / (n - 1)
    st = n * (C ** 2).sum()
    W = np.array([rx[:, i] * ry[:, j] for i, j in itertools.product(range(fx.shape[1]), range(fy.shape[1]))]).T
    S = W.T @ W / n
    if approx == "chi2" and num_f2 > 1:
        return max(0.0, stats.chi2.sf(n * C.ravel() @ pinv(S) @ C.ravel(), C.size))
    lam = np.linalg.eigvalsh(S)
    lam = lam[lam > 0]
    if approx == "perm" and num_f2 > 1:
        sp = []
        for _ in range(300):
            D = rx[r.permutation(n)]
            sp.append(n * (((D - D.mean(0)).T @ (ry - ry.mean(0)) / (n - 1)) ** 2).sum())
        return float((np.array(sp) > st).mean())
    if approx == "gamma" and num_f2 > 1:
        return max(0.0, 1 - sw(lam, st))
    if approx == "hbe" or num_f2 == 1:
        return max(0.0, 1 - hbe(lam, st))
    try:
        p = 1 - lpb4(lam, st)
    except Exception:
        p = np.nan
    return max(0.0, 1 - hbe(lam, st) if np.isnan(p) else p)


def rcit(ctx):
    """the randomised tests draw p-values from the right law"""
    r = ctx.rng
    n = 260 if ctx.index % 7 else 560
    dz = ctx.index // 5 % 3
    kind = str(r.choice(["null", "weak", "nonlinear", "hetero", "linear"], p=[.3, .3, .15, .15, .1]))
    X, Y, Z = sample(r, n, kind, 1, 1, dz)
    if kind == "weak" and r.random() < .5:
        Y = Y - .15 * X
    c = {"approx": ["lpd4", "gamma", "hbe", "chi2", "perm"][ctx.index % 5]}
    if dz:
        c["num_f"] = int(r.choice([10, 25, 60]))
        c["num_f2"] = int(r.choice([1, 3, 5, 5, 5]))
        c["rcit"] = bool(r.random() < .5)
    reps = 25 if c["approx"] == "perm" else 70
    ctx.event("approx:" + c["approx"])
    ctx.event("conditional" if dz else "unconditional")
    ctx.note({"n": n, "dz": dz, "kind": kind, "config": c})
    got = []
    for _ in range(reps):
        t, x, y, z = cit_for(X, Y, Z, "rcit", **c)
        got.append(float(t(x, y, z)))
        ctx.event("p_values")
    ctx.check(all(0 <= g <= 1 + 1e-9 for g in got), "rcit/range", f"{c}: {min(got)}..{max(got)}")
    want = [float(rcit_ref(r, X, Y, Z, **c)) for _ in range(2 * reps)]
    k = stats.ks_2samp(np.round(got, 6), np.round(want, 6))
    ctx.event("laws_compared")
    ctx.check(k.pvalue > 1e-8, "rcit/law", f"{c} dz={dz} {kind}: KS {k.statistic:.2f} (p={k.pvalue:.1e}); mean {np.mean(got):.3f}, should be {np.mean(want):.3f}")
    ctx.state(c, kind, dz, round(float(np.mean(want)), 4))


def fastkci(ctx):
    r = ctx.rng
    dz = int(r.choice([0, 1]))
    one = r.random() < .5
    n = 90 if one else 130
    kind = str(r.choice(["null", "linear", "nonlinear"]))
    X, Y, Z = sample(r, n, kind, 1, 1, dz)
    kw = dict(K=1, J=1) if one else dict(K=3, J=4)
    ctx.note({"n": n, "dz": dz, "kind": kind, "kw": kw})
    t, x, y, z = cit_for(X, Y, Z, "fastkci", **kw)
    p = float(t(x, y, z))
    ctx.event("p_values")
    ctx.check(0 <= p <= 1, "fastkci/range")
    if one:
        # a single block is the plain test with a simulated null
        st, _, lam = kci_ref(X, Y, Z, {})
        draws = np.random.default_rng(1).chisquare(1, (4000, len(lam)))
        ref = float((draws @ lam > st).mean())
        ctx.event("single_block")
        ctx.check(abs(p - ref) < 7 * np.sqrt(max(ref * (1 - ref), .002) * (1 / 5000 + 1 / 4000)) + .01, "fastkci/single-block", f"{kw} {kind} dz={dz}: p={p}, should be near {ref}")
    elif kind != "null":
        ctx.event("power")
        ctx.check(p < .05, "fastkci/power", f"{kind} dz={dz}: p={p}")
    ctx.state(kind, dz, str(kw), round(p, 3))


def calibration(ctx):
    """false-alarm rate and power on replicated data"""
    r = ctx.rng
    meth = str(r.choice(["kci", "rcit", "fastkci"], p=[.45, .45, .1]))
    dz = int(r.choice([0, 1, 2])) if meth != "fastkci" else 1
    R = 40 if meth != "fastkci" else 12
    n = 120 if meth != "rcit" else 250
    kw = {"num_f": 25} if meth == "rcit" and dz else {"K": 2, "J": 2} if meth == "fastkci" else {}
    ctx.event(meth)
    ctx.note({"method": meth, "dz": dz})
    null, alt = [], []
    for i in range(R):
        X, Y, Z = sample(r, n, "null", 1, 1, dz)
        t, x, y, z = cit_for(X, Y, Z, meth, **kw)
        null.append(float(t(x, y, z)))
        X, Y, Z = sample(r, n, ["linear", "nonlinear"][i % 2], 1, 1, dz)
        t, x, y, z = cit_for(X, Y, Z, meth, **kw)
        alt.append(float(t(x, y, z)))
        ctx.event("p_values", 2)
    lo = sum(p < .05 for p in null)
    ctx.check(lo <= R * .35, f"{meth}/false-alarms", f"dz={dz}: {lo} of {R} independent pairs rejected at 5%")
    ctx.check(np.mean(null) > .22, f"{meth}/null-level", f"dz={dz}: mean p under independence {np.mean(null):.3f}")
    hits = sum(p < .05 for p in alt)
    ctx.check(hits >= R * .7, f"{meth}/power", f"dz={dz}: {hits} of {R} strong dependences found")
    ctx.state(meth, dz, [round(p, 4) for p in null[:5]])


STREAMS = {
    "kci": Stream(kci, 260, 5000, need=["p_values", "conditional", "unconditional", "width:median", "width:manual", "width:empirical", "simulated_null", "constant_column"], timeout=60),
    "gp": Stream(gp, 8, 60, need=["p_values"], timeout=120),
    "rcit": Stream(rcit, 36, 700, need=["laws_compared", "approx:perm", "approx:chi2", "conditional", "unconditional"], timeout=120),
    "fastkci": Stream(fastkci, 24, 300, need=["single_block", "power"], timeout=120),
    "calibration": Stream(calibration, 20, 200, need=["kci", "rcit"], timeout=180),
}
