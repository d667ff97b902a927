"""Independent reference models.  Nothing here imports the library under test.

DAGs are (n, set of (i, j)) meaning i -> j.  Mixed graphs are dicts
mark[i][j] = mark at the j end of edge i-j:  0 none, 1 circle, 2 arrow, 3 tail.
"""
import functools
import itertools

import numpy as np

NONE, CIRC, ARR, TAIL = 0, 1, 2, 3


# ----------------------------------------------------------------- DAG basics
def parents_of(n, E):
    pa = [set() for _ in range(n)]
    for i, j in E:
        pa[j].add(i)
    return pa


def children_of(n, E):
    ch = [set() for _ in range(n)]
    for i, j in E:
        ch[i].add(j)
    return ch


def topo(n, E):
    pa = parents_of(n, E)
    order, left = [], set(range(n))
    while left:
        r = [v for v in sorted(left) if not (pa[v] & left)]
        if not r:
            return None
        order += r
        left -= set(r)
    return order


def is_acyclic(n, E):
    return topo(n, E) is not None


def reach(n, E):
    """reflexive-transitive closure R[i] = descendants of i incl. i"""
    ch = children_of(n, E)
    out = []
    for i in range(n):
        seen, st = {i}, [i]
        while st:
            v = st.pop()
            for w in ch[v]:
                if w not in seen:
                    seen.add(w)
                    st.append(w)
        out.append(seen)
    return out


def ancestors(n, E, S):
    pa = parents_of(n, E)
    seen, st = set(S), list(S)
    while st:
        v = st.pop()
        for w in pa[v]:
            if w not in seen:
                seen.add(w)
                st.append(w)
    return seen


def dsep(n, E, x, y, Z):
    """x _||_ y | Z by moralisation of the ancestral graph (x, y nodes or sets)"""
    X = {x} if isinstance(x, (int, np.integer)) else set(x)
    Y = {y} if isinstance(y, (int, np.integer)) else set(y)
    Z = set(Z)
    A = ancestors(n, E, X | Y | Z)
    nb = {v: set() for v in A}
    pa = parents_of(n, E)
    for v in A:
        ps = [p for p in pa[v] if p in A]
        for p in ps:
            nb[v].add(p)
            nb[p].add(v)
        for p, q in itertools.combinations(ps, 2):
            nb[p].add(q)
            nb[q].add(p)
    st, seen = [v for v in X if v not in Z], set(X)
    while st:
        v = st.pop()
        if v in Y:
            return False
        for w in nb[v]:
            if w not in seen and w not in Z:
                seen.add(w)
                st.append(w)
    return True


def skeleton(E):
    return {frozenset(e) for e in E}


def vstructs(n, E):
    sk = skeleton(E)
    pa = parents_of(n, E)
    out = set()
    for v in range(n):
        for a, b in itertools.combinations(sorted(pa[v]), 2):
            if frozenset((a, b)) not in sk:
                out.add((a, v, b))
    return out


def mec_brute(n, E):
    """all DAGs Markov equivalent to E (skeleton + v-structures), by enumeration"""
    sk = sorted(tuple(sorted(s)) for s in skeleton(E))
    vs = vstructs(n, E)
    fixed = {}
    for a, v, b in vs:
        fixed[tuple(sorted((a, v)))] = (a, v)
        fixed[tuple(sorted((b, v)))] = (b, v)
    free = [s for s in sk if s not in fixed]
    for bits in itertools.product((0, 1), repeat=len(free)):
        F = set(fixed.values()) | {(s if b == 0 else (s[1], s[0])) for s, b in zip(free, bits)}
        if is_acyclic(n, F) and vstructs(n, F) == vs:
            yield F


def cpdag_brute(n, E):
    D, U = None, None
    all_ = None
    for F in mec_brute(n, E):
        all_ = set(F) if all_ is None else all_ & F
    D = all_
    U = {s for s in skeleton(E) if not any((tuple(s) == d or tuple(s)[::-1] == d) for d in D)}
    return D, U


def cpdag(n, E):
    """(directed set, undirected set of frozensets): skeleton + v-structures closed under Meek R1-R3"""
    D = set()
    for a, v, b in vstructs(n, E):
        D |= {(a, v), (b, v)}
    U = {s for s in skeleton(E) if not any(tuple(t) in D for t in (tuple(s), tuple(s)[::-1]))}
    return meek(n, D, U, rule4=False)


def meek(n, D, U, rule4=True):
    D, U = set(D), set(U)

    def adj(a, b):
        return (a, b) in D or (b, a) in D or frozenset((a, b)) in U

    ch = True
    while ch:
        ch = False
        for s in list(U):
            for a, b in (tuple(s), tuple(s)[::-1]):
                hit = any((c, a) in D and not adj(c, b) and c != b for c in range(n))
                hit = hit or any((a, c) in D and (c, b) in D for c in range(n))
                if not hit:
                    cs = [c for c in range(n) if frozenset((a, c)) in U and (c, b) in D]
                    hit = any(not adj(c, d) for c, d in itertools.combinations(cs, 2))
                if not hit and rule4:
                    # a - c -> d -> b, a adjacent d, c not adjacent b
                    hit = any(frozenset((a, c)) in U and (c, d) in D and (d, b) in D and not adj(c, b) and adj(a, d)
                              for c in range(n) for d in range(n) if len({a, b, c, d}) == 4)
                if hit:
                    U.discard(s)
                    D.add((a, b))
                    ch = True
                    break
    return D, U


def all_dags(n):
    pairs = list(itertools.combinations(range(n), 2))
    for bits in itertools.product((0, 1, 2), repeat=len(pairs)):
        E = {(p if b == 1 else (p[1], p[0])) for p, b in zip(pairs, bits) if b}
        if is_acyclic(n, E):
            yield E


def consistent_extension_exists(n, D, U):
    """brute force: is there a DAG with same skeleton, containing D, with no v-structure other than those in D"""
    return next(extensions(n, D, U), None) is not None


def extensions(n, D, U):
    sk = skeleton(D) | set(U)

    def vs_of(F):
        pa = parents_of(n, F)
        out = set()
        for v in range(n):
            for a, b in itertools.combinations(sorted(pa[v]), 2):
                if frozenset((a, b)) not in sk:
                    out.add((a, v, b))
        return out

    base = vs_of(D)
    us = sorted(tuple(sorted(u)) for u in U)
    for bits in itertools.product((0, 1), repeat=len(us)):
        F = set(D) | {(u if b == 0 else (u[1], u[0])) for u, b in zip(us, bits)}
        if is_acyclic(n, F) and vs_of(F) == base:
            yield F


# --------------------------------------------------------------- mixed graphs
class Mixed:
    """mark[i, j]: mark at the j end of the edge between i and j"""

    def __init__(self, n):
        self.n = n
        self.m = [[0] * n for _ in range(n)]

    def copy(self):
        g = Mixed(self.n)
        g.m = [r[:] for r in self.m]
        return g

    def set(self, i, j, at_i, at_j):
        self.m[i][j] = at_j
        self.m[j][i] = at_i

    def adj(self, i, j):
        return self.m[i][j] != 0

    def nbrs(self, i):
        return [j for j in range(self.n) if self.m[i][j]]

    def edges(self):
        return [(i, j) for i in range(self.n) for j in range(i + 1, self.n) if self.m[i][j]]

    def key(self):
        return tuple(map(tuple, self.m))

    def show(self, names=None):
        sym = {1: "o", 2: ">", 3: "-"}
        rsym = {1: "o", 2: "<", 3: "-"}
        names = names or [str(i) for i in range(self.n)]
        return [f"{names[i]} {rsym[self.m[j][i]]}-{sym[self.m[i][j]]} {names[j]}" for i, j in self.edges()]

    def directed(self):
        return {(i, j) for i in range(self.n) for j in range(self.n) if self.m[i][j] == ARR and self.m[j][i] == TAIL}


def msep(g, x, y, Z):
    """m-separation in a mixed graph without circles (arrows/tails), via reachability on (node, incoming mark)"""
    Z = set(Z)
    n = g.n
    # ancestors via directed edges
    D = g.directed()
    an = ancestors(n, D, Z) if Z else set()
    # state (v, arrived_with_arrow)
    start = [(w, g.m[x][w] == ARR) for w in g.nbrs(x)]
    seen = set(start)
    st = list(start)
    while st:
        v, into = st.pop()
        if v == y:
            return False
        for w in g.nbrs(v):
            if w == x:
                continue
            coll = into and g.m[w][v] == ARR
            if (coll and v in an) or (not coll and v not in Z):
                s = (w, g.m[v][w] == ARR)
                if s not in seen:
                    seen.add(s)
                    st.append(s)
    return True


def mag_from_dag(n, E, L=(), S=()):
    """MAG over observed nodes of the DAG with latent L and selection S (Richardson & Spirtes)"""
    L, S = set(L), set(S)
    O = [v for v in range(n) if v not in L and v not in S]
    g = Mixed(len(O))
    for a in range(len(O)):
        for b in range(a + 1, len(O)):
            x, y = O[a], O[b]
            if inducing(n, E, x, y, L, S):
                ax = x in ancestors(n, E, {y} | S)
                ay = y in ancestors(n, E, {x} | S)
                g.set(a, b, TAIL if ax else ARR, TAIL if ay else ARR)
    return g, O


def inducing(n, E, x, y, L, S):
    """no subset of O\\{x,y} separates x and y given S: test with Z = an({x,y} u S) n O"""
    O = set(range(n)) - L - S
    Z = (ancestors(n, E, {x, y} | S) & O) - {x, y}
    return not dsep(n, E, x, y, Z | S)


def pag_from_mag(mag):
    """PAG by skeleton + unshielded colliders + Zhang's complete rules, applied to the MAG's own Markov class"""
    n = mag.n
    p = Mixed(n)
    for i, j in mag.edges():
        p.set(i, j, CIRC, CIRC)
    for b in range(n):
        for a, c in itertools.combinations(mag.nbrs(b), 2):
            if not mag.adj(a, c) and mag.m[a][b] == ARR and mag.m[c][b] == ARR:
                p.m[a][b] = ARR
                p.m[c][b] = ARR

    def collider_in_mag(a, b, c):
        return mag.m[a][b] == ARR and mag.m[c][b] == ARR

    fci_rules(p, lambda path: collider_in_mag(*path[-3:]))
    return p


def pag_lax_r9(mag, pag):
    """the PAG plus every mark that can follow when R9 accepts any semi-directed walk from B to C (also one through A or with
    shortcuts) instead of an uncovered path: A o-> C with B next to A, not next to C"""
    n = mag.n
    p0 = Mixed(n)
    for i, j in mag.edges():
        p0.set(i, j, CIRC, CIRC)
    for b in range(n):
        for a, c in itertools.combinations(mag.nbrs(b), 2):
            if not mag.adj(a, c) and mag.m[a][b] == ARR and mag.m[c][b] == ARR:
                p0.m[a][b] = p0.m[c][b] = ARR

    def walks(b):
        seen, st = set(), [b]
        while st:
            v = st.pop()
            for w in mag.nbrs(v):
                if w not in seen and p0.m[w][v] != ARR:
                    seen.add(w)
                    st.append(w)
        return seen

    W = [walks(b) for b in range(n)]
    cand = [(a, c) for a in range(n) for c in mag.nbrs(a)
            if any(b != c and not mag.adj(b, c) and p0.m[b][a] != ARR and c in W[b] for b in mag.nbrs(a))]
    def disc(path):
        return mag.m[path[-3]][path[-2]] == ARR and mag.m[path[-1]][path[-2]] == ARR

    def close(p):
        while True:
            k = p.key()
            for a, c in cand:
                if p.m[c][a] == CIRC and p.m[a][c] == ARR:
                    p.m[c][a] = TAIL
            fci_rules(p, disc, strict=False)
            if p.key() == k:
                return p

    late = Mixed(n)
    late.m = [r[:] for r in pag.m]
    early = Mixed(n)
    early.m = [r[:] for r in p0.m]
    fci_rules(early, disc, rules=(1, 2, 3), strict=False)
    return close(late), close(early), cand


def fci_rules(p, disc_is_collider, rules=range(1, 11), strict=True):
    """Zhang 2008 R1-R10 to fixpoint.  disc_is_collider(path) decides the last-but-one triple of a
    discriminating path (v0..., q, b, r) with `path[-3:] = (q, b, r)`."""
    n, m = p.n, p.m
    N = range(n)

    def adj(i, j):
        return m[i][j] != 0

    def uncovered_pd(a, first, c, need):
        """uncovered potentially-directed path a, first, ..., c (len >= 3 edges if need)"""
        res = []

        def ext(path):
            v = path[-1]
            if v == c:
                res.append(list(path))
                return True
            for w in N:
                if w in path or not adj(v, w):
                    continue
                if m[w][v] == ARR or m[v][w] == TAIL:
                    continue
                if len(path) >= 2 and adj(path[-2], w):
                    continue
                if ext(path + [w]):
                    return True
            return False

        if not adj(a, first) or m[first][a] == ARR or m[a][first] == TAIL:
            return None
        ext([a, first])
        return res[0] if res else None

    changed = True
    while changed:
        changed = False

        def setm(i, j, v):
            nonlocal changed
            if m[i][j] != v:
                if m[i][j] != CIRC:
                    assert not strict, "conflicting orientation"
                    return
                m[i][j] = v
                changed = True

        for a in N:
            for b in N:
                if a == b or not adj(a, b):
                    continue
                for c in N:
                    if c in (a, b) or not adj(b, c):
                        continue
                    # R1
                    if not adj(a, c) and m[a][b] == ARR and m[c][b] == CIRC:
                        setm(c, b, TAIL)
                        if m[b][c] == CIRC:
                            setm(b, c, ARR)
                    # R2
                    if adj(a, c) and m[a][c] == CIRC:
                        if (m[a][b] == ARR and m[b][a] == TAIL and m[b][c] == ARR) or \
                                (m[a][b] == ARR and m[b][c] == ARR and m[c][b] == TAIL):
                            setm(a, c, ARR)
        # R3
        for b in N:
            for a, c in itertools.combinations([v for v in N if adj(v, b) and m[v][b] == ARR], 2):
                if adj(a, c):
                    continue
                for d in N:
                    if d in (a, b, c) or not adj(d, b) or not adj(a, d) or not adj(c, d):
                        continue
                    if m[a][d] == CIRC and m[c][d] == CIRC and m[d][b] == CIRC:
                        setm(d, b, ARR)
        # R4 discriminating paths <v, ..., q, b, r>
        for b in N:
            for r in N:
                if 4 not in rules or b == r or not adj(b, r) or m[r][b] != CIRC:
                    continue
                path = _disc(p, b, r)
                if path is not None:
                    if disc_is_collider(path):
                        q = path[-3]
                        setm(r, b, ARR)
                        if m[b][r] == CIRC:
                            setm(b, r, ARR)
                        if m[q][b] == CIRC:
                            setm(q, b, ARR)
                    else:
                        setm(r, b, TAIL)
                        if m[b][r] == CIRC:
                            setm(b, r, ARR)
        if 5 in rules:
            for a in N:
                for b in N:
                    if a < b and m[a][b] == CIRC and m[b][a] == CIRC:
                        path = _uncov_circle(p, a, b)
                        if path:
                            for u, v in list(zip(path, path[1:])) + [(a, b)]:
                                setm(u, v, TAIL)
                                setm(v, u, TAIL)
        if 6 in rules:
            for a in N:
                for b in N:
                    if adj(a, b) and m[a][b] == TAIL and m[b][a] == TAIL:
                        for c in N:
                            if c != a and adj(b, c) and m[c][b] == CIRC:
                                setm(c, b, TAIL)
        if 7 in rules:
            for a in N:
                for b in N:
                    if adj(a, b) and m[b][a] == TAIL and m[a][b] == CIRC:
                        for c in N:
                            if c not in (a,) and adj(b, c) and not adj(a, c) and m[c][b] == CIRC:
                                setm(c, b, TAIL)
        if 8 in rules:
            for a in N:
                for c in N:
                    if adj(a, c) and m[a][c] == ARR and m[c][a] == CIRC:
                        for b in N:
                            if adj(a, b) and adj(b, c) and m[b][a] == TAIL and m[c][b] == TAIL and m[b][c] == ARR \
                                    and m[a][b] in (ARR, CIRC):
                                setm(c, a, TAIL)
                                break
        if 9 in rules:
            for a in N:
                for c in N:
                    if adj(a, c) and m[a][c] == ARR and m[c][a] == CIRC:
                        for b in N:
                            if b not in (a, c) and adj(a, b) and not adj(b, c):
                                if uncovered_pd(a, b, c, 3):
                                    setm(c, a, TAIL)
                                    break
        if 10 in rules:
            for a in N:
                for c in N:
                    if adj(a, c) and m[a][c] == ARR and m[c][a] == CIRC:
                        bs = [b for b in N if b != a and adj(b, c) and m[b][c] == ARR and m[c][b] == TAIL]
                        done = False
                        for b, d in itertools.permutations(bs, 2):
                            for mu in N:
                                for om in N:
                                    if mu == om or mu in (a,) or om in (a,) or not adj(a, mu) or not adj(a, om) or adj(mu, om):
                                        continue
                                    if uncovered_pd(a, mu, b, 0) and uncovered_pd(a, om, d, 0) and c not in (mu, om):
                                        setm(c, a, TAIL)
                                        done = True
                                        break
                                if done:
                                    break
                            if done:
                                break
    return p


def _disc(p, b, r):
    """a discriminating path for b ending (..., q, b, r), or None: v .. q each collider on path & parent of r; v not adj r"""
    m, N = p.m, range(p.n)
    for q in N:
        if q in (b, r) or m[q][b] == 0:
            continue
        # q parent of r, arrow into q from b
        if not (m[q][r] == ARR and m[r][q] == TAIL and m[b][q] == ARR):
            continue
        # search back from q: nodes are colliders & parents of r, until node not adjacent to r
        st = [[r, b, q]]
        while st:
            path = st.pop()
            v = path[-1]
            for w in N:
                if w in path or m[w][v] != ARR:
                    continue
                # w *-> v ; v is collider: needs arrow at v from both sides: from previous path node too
                if m[w][r] == 0:
                    return list(reversed(path + [w]))
                if m[w][r] == ARR and m[r][w] == TAIL and m[v][w] == ARR:
                    st.append(path + [w])
    return None


def _uncov_circle(p, a, b):
    """uncovered circle path a, c, ..., d, b with a,d nonadjacent and b,c nonadjacent"""
    m, N = p.m, range(p.n)

    def cc(u, v):
        return m[u][v] == CIRC and m[v][u] == CIRC

    res = []

    def ext(path):
        v = path[-1]
        for w in N:
            if w in path or not cc(v, w):
                continue
            if m[path[-2]][w]:
                continue
            if w == b:
                if len(path) >= 3 and not m[a][v]:
                    res.append(path + [b])
                    return True
                continue
            if ext(path + [w]):
                return True
        return False

    for c in N:
        if c in (a, b) or not cc(a, c) or m[b][c]:
            continue
        if ext([a, c]):
            return res[0]
    return None


def pag_brute(mag):
    """PAG = invariant marks over all Markov-equivalent MAGs with the same skeleton"""
    n = mag.n
    es = mag.edges()
    indep = indep_model(mag)
    keep = None
    for marks in itertools.product(((TAIL, ARR), (ARR, TAIL), (ARR, ARR), (TAIL, TAIL)), repeat=len(es)):
        g = Mixed(n)
        for (i, j), (mi, mj) in zip(es, marks):
            g.set(i, j, mi, mj)
        if not is_ancestral(g) or indep_model(g) != indep:
            continue
        if keep is None:
            keep = [r[:] for r in g.m]
        else:
            for i in range(n):
                for j in range(n):
                    if keep[i][j] != g.m[i][j]:
                        keep[i][j] = CIRC
    p = Mixed(n)
    p.m = keep
    return p


def is_ancestral(g):
    n = g.n
    D = g.directed()
    if not is_acyclic(n, D):
        return False
    R = reach(n, D)
    for i, j in g.edges():
        if g.m[i][j] == ARR and g.m[j][i] == ARR and (j in R[i] or i in R[j]):
            return False
    for i in range(n):
        und = any(g.m[i][j] == TAIL and g.m[j][i] == TAIL for j in range(n))
        into = any(g.m[j][i] == ARR for j in range(n))
        if und and into:
            return False
    return True


def indep_model(g):
    n = g.n
    out = []
    for x in range(n):
        for y in range(x + 1, n):
            rest = [v for v in range(n) if v not in (x, y)]
            for k in range(len(rest) + 1):
                for Z in itertools.combinations(rest, k):
                    out.append(msep(g, x, y, Z))
    return tuple(out)
