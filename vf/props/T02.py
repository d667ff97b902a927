"""The p-value cache never changes an answer: hits equal fresh computations, foreign cache files are refused."""
import os
import shutil
import tempfile
import time

import numpy as np

from causallearn.utils.cit import CIT

from .. import gen
from ..core import Stream
from .T01 import forms, queries

ID = "T02"
RULE = ("a case = a history of sessions (open a test on a cache file, ask questions in varying forms, close), with saves forced between questions, changed data, "
        "changed tests or parameters, and damaged files; non-trivial when a file was reloaded; distinct by session history")
ASSUMPTIONS = ["the periodic save is driven by a substituted clock", "kernel tests are run with their deterministic approximation"]


class Clock:
    """stands in for the wall clock so that the periodic save happens at every question"""

    def __init__(self):
        self.real, self.off = time.time, 0.0

    def __enter__(self):
        def now():
            self.off += 100.0
            return self.real() + self.off
        time.time = now
        return self

    def __exit__(self, *a):
        time.time = self.real


def variants(r, X):
    """data sets that differ from X, some of them only deep inside"""
    out = []
    Y = X.copy()
    i, j = (int(r.integers(d)) for d in X.shape)
    Y[i, j] += 1 if X.dtype.kind == "i" else 0.5
    out.append(("one-value", Y))
    if X.dtype.kind != "i":
        Y = X.copy()
        Y[len(X) // 2, X.shape[1] // 2] *= 1 + 1e-12
        Y[len(X) // 2, X.shape[1] // 2] += 1e-10
        out.append(("tiny", Y))
    out.append(("columns", np.ascontiguousarray(X[:, ::-1])))
    out.append(("rows", X[:-1].copy()))
    Y = X.copy()
    k = len(X) // 2
    Y[[k, k + 1]] = Y[[k + 1, k]]
    if not np.array_equal(Y, X):
        out.append(("two-rows-swapped", Y))
    if X.size % 2 == 0 and X.shape[0] % 2 == 0:
        out.append(("reshaped", np.ascontiguousarray(X).reshape(X.shape[0] // 2, -1)))
    if X.dtype.itemsize == 8:
        out.append(("same-bytes-as-other-numbers", np.ascontiguousarray(X).view(np.int64 if X.dtype.kind == "f" else np.float64)))
    return out


METHODS = [("fisherz", {}), ("mv_fisherz", {}), ("chisq", {}), ("gsq", {}), ("kci", {}), ("kci", {"est_width": "median"}),
           ("kci", {"kernelX": "Polynomial", "kernelY": "Polynomial"}), ("fastkci", {}), ("rcit", {}), ("rcit", {"num_f": 30})]
# every parameter of a test belongs to the identity of its cache
OTHER = [("kci", k) for k in ({"kernelX": "Linear"}, {"kernelY": "Linear"}, {"kernelZ": "Linear"}, {"null_ss": 77}, {"approx": False}, {"use_gp": True}, {"polyd": 3},
                              {"kernelX": "Polynomial", "kernelY": "Polynomial", "polyd": 3}, {"est_width": "manual", "kwidthx": .5, "kwidthy": .5, "kwidthz": .5},
                              {"est_width": "manual", "kwidthx": .7, "kwidthy": .5, "kwidthz": .5}, {"est_width": "manual", "kwidthx": .5, "kwidthy": .7, "kwidthz": .5},
                              {"est_width": "manual", "kwidthx": .5, "kwidthy": .5, "kwidthz": .7})] + \
        [("fastkci", k) for k in ({"K": 7}, {"J": 3}, {"alpha": 77.}, {"use_gp": True})] + \
        [("rcit", k) for k in ({"num_f2": 3}, {"rcit": False}, {"approx": "gamma"}, {"approx": "perm"})]
DET = {"fisherz", "mv_fisherz", "chisq", "gsq", "kci"}


def history(ctx):
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        _history(ctx)
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def _history(ctx):
    r = ctx.rng
    n = int(r.integers(3, 6))
    disc = r.random() < .5
    N = int(r.choice([40, 60, 400, 700]))
    E = gen.rand_dag(r, n)
    X = gen.sem_discrete(r, n, E, N)[0] if disc else gen.sem_linear(r, n, E, N)[0]
    pool = [m for m in METHODS if not (m[0] in ("chisq", "gsq") and not disc) and not (m[0] == "kci" and N > 100)]
    if np.any(X.std(0) == 0) or disc and np.linalg.cond(np.corrcoef(X.T)) > 1e6:
        return
    meth, kw = pool[int(r.integers(len(pool)))]
    while meth not in DET:
        meth, kw = pool[int(r.integers(len(pool)))]
    path = str(r.choice(["c.json", "./d/e/c.json", os.path.abspath("abs/c.json")]))
    fresh, hist = {}, []

    def truth(x, y, S):
        k = (min(x, y), max(x, y), tuple(S))
        if k not in fresh:
            fresh[k] = float(CIT(X, meth, **kw)(k[0], k[1], k[2]))
        return fresh[k]
    ctx.note({"method": meth, "kw": kw, "path": path, "N": N})
    qs = queries(ctx, n, 6, 2)
    with Clock():
        for s in range(int(r.integers(2, 5))):
            have = os.path.exists(path)
            hist.append(have)
            ok, t = ctx.call("open", CIT, X.copy() if r.random() < .5 else np.asfortranarray(X), meth, cache_path=path, **kw)
            if not ok:
                return
            if have:
                ctx.event("reloaded")
            for _ in range(int(r.integers(1, 9))):
                x, y, S = qs[int(r.integers(len(qs)))]
                fs = forms(ctx, x, y, S)
                q = fs[int(r.integers(len(fs)))]
                p = float(t(*q))
                ctx.event("answers")
                ctx.check(p == truth(x, y, S) or abs(p - truth(x, y, S)) < 1e-9, "answer-differs", f"session {s}, {meth}: {q} answered {p}, fresh answer {truth(x, y, S)}")
            t(*qs[0])
            if os.path.exists(path):
                ctx.event("saved")
    if not os.path.exists(path):
        ctx.fail("never-saved", f"{meth}: no cache file after {s + 1} sessions on a fast clock")
        return
    ctx.state(meth, str(kw), path, hist, [round(v, 9) for v in fresh.values()])
    # other data, tests and parameters must be refused
    size = os.path.getsize(path)
    for tag, Y in variants(r, X):
        if meth in ("chisq", "gsq"):
            code = lambda A: [tuple(np.unique(c, return_inverse=True)[1]) for c in A.T]
            if code(Y) == code(X):
                continue
        refuse(ctx, "data/" + tag, Y, meth, path, kw)
    for m2, k2 in pool:
        if (m2, k2) != (meth, kw):
            refuse(ctx, "test" if m2 != meth else "parameters", X, m2, path, k2, meth, kw)
    ctx.check(os.path.getsize(path) == size, "refusal-damaged-file")
    # damaged files
    with open(path) as f:
        txt = f.read()
    for cut in {int(v) for v in r.integers(0, len(txt), 4)}:
        with open(path, "w") as f:
            f.write(txt[:cut])
        ctx.event("damaged_file")
        try:
            t = CIT(X, meth, cache_path=path, **kw)
        except Exception:
            ctx.event("damaged_refused")
            continue
        for x, y, S in qs[:3]:
            ctx.check(abs(float(t(x, y, S)) - truth(x, y, S)) < 1e-9, "damaged-file-answer")


def refuse(ctx, what, X, meth, path, kw, m0=None, k0=None):
    ctx.event("refusals_tried")
    try:
        CIT(X, meth, cache_path=path, **kw)
    except Exception:
        ctx.event("refused:" + what.split("/")[0])
        return
    ctx.fail("foreign-cache-accepted/" + what, f"cache of {m0 or meth} {k0 or ''} opened by {meth} {kw} ({what})")


def memory(ctx):
    """within one session: the answer to a question does not depend on what was asked before"""
    r = ctx.rng
    n = int(r.integers(3, 13))
    N = 150
    meth = str(r.choice(["fisherz", "mv_fisherz", "chisq", "gsq"]))
    X = gen.sem_discrete(r, n, gen.rand_dag(r, n), N)[0].astype(float) if meth in ("chisq", "gsq") else gen.sem_linear(r, n, gen.rand_dag(r, n), N)[0]
    t = CIT(X, meth)
    qs = queries(ctx, n, 25, 4)
    ctx.note({"method": meth, "n": n})
    for x, y, S in qs + qs[::-1]:
        fs = forms(ctx, x, y, S)
        q = fs[int(r.integers(len(fs)))]
        a, b = float(t(*q)), float(CIT(X, meth)(x, y, tuple(S)))
        ctx.event("answers")
        ctx.check(abs(a - b) < 1e-9, "session-answer-differs", f"{meth}: {q}: {a}, fresh {b}")
    for x, y, S in qs[:4]:
        for bad in [(x, y, list(S) + [x]), (x, y, list(S) + [y])]:
            try:
                t(*bad)
                ctx.fail("overlap-accepted", f"{bad}")
            except AssertionError:
                ctx.event("overlap_refused")
    ctx.state(meth, qs)


def identity(ctx):
    """a file written by a test with some parameters is refused by the same test with any other parameters"""
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    try:
        r = ctx.rng
        X = gen.sem_linear(r, 3, gen.rand_dag(r, 3), 24)[0]
        pool = [m for m in METHODS if m[0] in ("kci", "fastkci", "rcit")] + OTHER
        meth, kw = pool[ctx.index % len(pool)]
        path = os.path.join(d, "c.json")
        with Clock():
            t = CIT(X, meth, cache_path=path, **kw)
            with np.errstate(all="ignore"):
                a = float(t(0, 1))
                t(0, 1)
            ctx.check(os.path.exists(path), "never-saved", f"{meth} {kw}")
            ok, u = ctx.call("open", CIT, X.copy(), meth, cache_path=path, **dict(reversed(list(kw.items()))))
            if ok:
                ctx.check(float(u(1, 0)) == a, "answer-differs", f"{meth} {kw}: {a} saved")
                ctx.event("reloaded")
        for m2, k2 in pool + [("fisherz", {})]:
            if (m2, k2) != (meth, kw):
                refuse(ctx, "test" if m2 != meth else "parameters", X, m2, path, k2, meth, kw)
        ctx.state(meth, str(kw), round(a, 6))
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def splits(r, d, s, multi):
    """questions whose column numbers, written one after the other, give the digit string s"""
    out = []
    for _ in range(60):
        cuts = [0] + [i for i in range(1, len(s)) if r.random() < .6] + [len(s)]
        w = [s[a:b] for a, b in zip(cuts, cuts[1:])]
        v = [int(t) for t in w]
        if any(len(t) > 1 and t[0] == "0" for t in w) or len(set(v)) < len(v) or max(v) >= d or len(v) < 2:
            continue
        if multi:
            a = int(r.integers(1, len(v)))
            b = int(r.integers(a + 1, len(v) + 1))
            q = (sorted(v[:a]), sorted(v[a:b]), sorted(v[b:]))
        else:
            q = (v[0], v[1], sorted(v[2:]))
        if q not in out:
            out.append(q)
    return out


def collisions(ctx):
    """different questions with similar numbers never share an answer"""
    r = ctx.rng
    multi = ctx.index % 3 == 0
    d = int(r.choice([16, 30])) if multi else int(r.choice([25, 130]))
    N = 24 if multi else 200
    meth = "kci" if multi else str(r.choice(["fisherz", "mv_fisherz", "chisq", "gsq"]))
    X = r.normal(size=(N, 3)) @ r.normal(size=(3, d)) + r.normal(size=(N, d)) * .7
    if meth in ("chisq", "gsq"):
        X = np.digitize(X, [-.5, .5]).astype(float)
    t = CIT(X, meth)
    for _ in range(3 if multi else 12):
        top = str(d - 1)
        s = "".join(str(int(c)) for c in r.integers(0 if r.random() < .3 else 1, 3 if r.random() < .6 else 10, int(r.integers(3, 6 if multi else 7))))
        qs = splits(r, d, s, multi)
        if len(qs) < 2:
            continue
        ctx.event("families")
        for i in r.permutation(len(qs))[:10]:
            q = qs[int(i)]
            got, want = float(t(*q)), float(CIT(X, meth)(*q))
            ctx.event("answers")
            ctx.check(abs(got - want) < 1e-9, "session-answer-differs", f"{meth}: {q}: {got}, fresh {want}, d={d}")
            ctx.state(meth, d, str(q))


STREAMS = {
    "identity": Stream(identity, 52, 520, need=["reloaded", "refused:test", "refused:parameters"]),
    "collisions": Stream(collisions, 60, 2000, need=["families", "answers"]),
    "history": Stream(history, 220, 4000, need=["reloaded", "saved", "answers", "refused:data", "refused:test", "refused:parameters", "damaged_refused"]),
    "memory": Stream(memory, 150, 3000, need=["answers", "overlap_refused"]),
}
