"""Instrumented conditional-independence tests, registered through the library's public extension point
(register_ci_test).  Every question the library asks is recorded: this log is the event trace that the
offline trace checkers read."""
import hashlib

import numpy as np

from causallearn.utils.cit import CIT_Base, register_ci_test

from . import ref


def _flat(v):
    return v if isinstance(v, (int, np.integer)) else list(v)


class TracedCI(CIT_Base):
    """spec: object with .p(x, y, Z) -> p-value ; .log list of (x, y, Z, p)"""

    def __init__(self, data, spec=None, **kw):
        super().__init__(data)
        self.method = "vf_oracle"
        self.spec = spec

    def __call__(self, X, Y, condition_set=None):
        Z = tuple(int(z) for z in (condition_set if condition_set is not None else ()))
        x, y = int(X), int(Y)
        assert x != y and x not in Z and y not in Z, ("malformed CI query", x, y, Z)
        p = self.spec.p(x, y, frozenset(Z))
        self.spec.log.append((x, y, Z, p))
        return p


register_ci_test("vf_oracle", TracedCI)


def _u(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


class DsepSpec:
    """perfect oracle for a DAG (observed = columns, extra nodes may be latent / selected);
    p-values vary inside the accept / reject regions so that strength rules have something to order"""

    def __init__(self, n, E, obs=None, sel=(), alpha=0.05, vary=True, salt=0, lab=None):
        self.n, self.E, self.sel = n, frozenset(E), frozenset(sel)
        self.obs = list(range(n)) if obs is None else list(obs)
        self.alpha, self.vary, self.salt = alpha, vary, salt
        self.log, self.memo = [], {}

    def indep(self, x, y, Z):
        k = (min(x, y), max(x, y), Z)
        if k not in self.memo:
            o = self.obs
            self.memo[k] = ref.dsep(self.n, self.E, o[x], o[y], {o[z] for z in Z} | self.sel)
        return self.memo[k]

    def p(self, x, y, Z):
        i = self.indep(x, y, Z)
        if not self.vary:
            return 1.0 if i else 0.0
        u = _u(self.salt, min(x, y), max(x, y), tuple(sorted(Z)))
        return self.alpha + (1 - self.alpha) * (.02 + .97 * u) if i else self.alpha * u * .95


class NoisySpec(DsepSpec):
    """deterministic but not faithful oracle: answers are flipped with probability q, or fully random"""

    def __init__(self, *a, flip=0.15, **k):
        super().__init__(*a, **k)
        self.flip = flip

    def indep(self, x, y, Z):
        k = (min(x, y), max(x, y), Z)
        if k not in self.memo:
            v = super().indep(x, y, Z)
            if _u("flip", self.salt, k[0], k[1], tuple(sorted(Z))) < self.flip:
                v = not v
            self.memo[k] = v
        return self.memo[k]


class MVWorld:
    """answers under test-wise deletion for a DAG over n variables with missingness indicators: R[v] = parents of v's indicator
    (absent = complete); data: an array whose NaN pattern says which variables are incomplete"""

    def __init__(self, n, E, R, alpha=.05, salt=0, noise=0.0):
        self.n, self.alpha, self.salt, self.noise = n, alpha, salt, noise
        self.ind = {v: n + i for i, v in enumerate(sorted(R))}
        self.E = set(E) | {(p, self.ind[v]) for v in R for p in R[v]}
        self.N = n + len(R)
        self.log, self.memo = [], {}

    def indep(self, x, y, Z, r=None, full=False):
        k = (min(x, y), max(x, y), frozenset(Z), r, full)
        if k not in self.memo:
            node = lambda v: self.ind[v] if v == r else v
            C = {node(z) for z in Z}
            if not full:
                C |= {self.ind[v] for v in {x, y} | set(Z) if v in self.ind and v != r}
            v = ref.dsep(self.N, self.E, node(x), node(y), C - {node(x), node(y)})
            if self.noise and _u("mv", self.salt, k[0], k[1], tuple(sorted(Z)), r, full) < self.noise:
                v = not v
            self.memo[k] = v
        return self.memo[k]

    def p(self, x, y, Z, r=None, full=False):
        u = _u(self.salt, min(x, y), max(x, y), tuple(sorted(Z)), r, full)
        return self.alpha + (1 - self.alpha) * (.02 + .97 * u) if self.indep(x, y, Z, r, full) else self.alpha * u * .95

    def mc(self, x, y, Z, skel, prt):
        """skel: adjacency sets; prt: {variable: parents of its indicator}; which answer a corrected test can give"""
        return self.p(x, y, Z, full=bool(correction_set(x, y, Z, skel, prt)))


def correction_set(x, y, Z, skel, prt):
    """variables by which the missingness of x, y, Z is corrected (empty: no correction)"""
    var = {x, y} | set(Z)
    W = {p for v in var for p in prt.get(v, ())}
    if not skel[x] & skel[y] & W:
        return set()
    while True:
        new = {p for v in W for p in prt.get(v, ())} - W
        if not new:
            return W - var
        W |= new


CURRENT = [None]


class MVTest(CIT_Base):
    """test-wise deletion oracle: the world is CURRENT[0]; a 0/1 column in place of an incomplete variable stands for its indicator"""

    def __init__(self, data, **kw):
        super().__init__(data)
        self.method = "vf_mv"
        w = CURRENT[0]
        has = np.isnan(data).any(0)
        r = [v for v in w.ind if not has[v]]
        assert len(r) <= 1 and all(set(np.unique(data[:, v])) <= {0, 1} for v in r), ("unexpected data handed to the test", r)
        self.r = r[0] if r else None

    def __call__(self, X, Y, condition_set=None):
        Z = tuple(int(z) for z in (condition_set if condition_set is not None else ()))
        w = CURRENT[0]
        p = w.p(int(X), int(Y), Z, r=self.r)
        w.log.append((int(X), int(Y), Z, p, self.r, "deletion"))
        return p


class MCTest(CIT_Base):
    def __init__(self, data, **kw):
        super().__init__(data)
        self.method = "mc_fisherz"

    def __call__(self, X, Y, condition_set, skel, prt_m):
        w = CURRENT[0]
        Z = tuple(int(z) for z in condition_set)
        adj = [{int(u) for u in skel.neighbors(v)} for v in range(w.n)]
        prt = {int(m): {int(q) for q in P} for m, P in zip(prt_m["m"], prt_m["prt"])}
        p = w.mc(int(X), int(Y), Z, adj, prt)
        w.log.append((int(X), int(Y), Z, p, (tuple(map(frozenset, adj)), tuple(sorted((m, tuple(sorted(P))) for m, P in prt.items()))), "corrected"))
        return p


class mv_session:
    """use the oracle tests for test-wise deletion and for the corrected test"""

    def __init__(self, world):
        self.w = world

    def __enter__(self):
        import causallearn.utils.cit as cit
        CURRENT[0] = self.w
        self.reg = cit._custom_ci_tests
        self.old = self.reg.get("mc_fisherz")
        register_ci_test("vf_mv", MVTest)
        register_ci_test("mc_fisherz", MCTest)
        return self.w

    def __exit__(self, *a):
        if self.old is None:
            self.reg.pop("mc_fisherz", None)
        else:
            self.reg["mc_fisherz"] = self.old
        CURRENT[0] = None
