"""Offline corpus search: worlds (DAG + latent + selected) whose PAG needs a particular ingredient of FCI.
   python make_pag_worlds.py SEED SECONDS OUT"""
import itertools
import json
import sys
import time
sys.path.insert(0, __file__.rsplit("/vf/", 1)[0])
import numpy as np
from vf import gen, ref


def bidi(r):
    k = int(r.integers(5, 9))
    o = [int(v) for v in r.permutation(k)]
    q, b = r.uniform(.1, .35), r.uniform(.0, .4)
    E, n, L, S = set(), k, [], []
    for i in range(k):
        for j in range(i + 1, k):
            if r.random() < q:
                E.add((o[i], o[j]))
            if r.random() < b and len(L) < 6:
                E |= {(n, o[i]), (n, o[j])}
                L.append(n)
                n += 1
    return n, E, L, [], list(range(k))


def selec(r):
    k = int(r.integers(4, 8))
    o = [int(v) for v in r.permutation(k)]
    q, b, s = r.uniform(.1, .35), r.uniform(.0, .2), r.uniform(.1, .35)
    E, n, L, S = set(), k, [], []
    for i in range(k):
        for j in range(i + 1, k):
            if r.random() < q:
                E.add((o[i], o[j]))
            if r.random() < b and len(L) < 4:
                E |= {(n, o[i]), (n, o[j])}
                L.append(n)
                n += 1
            elif r.random() < s and len(S) < 4:
                E |= {(o[i], n), (o[j], n)}
                S.append(n)
                n += 1
    return n, E, L, S, list(range(k))


def pd_needed(g):
    n = g.n
    S = {frozenset(p) for p in itertools.combinations(range(n), 2)}
    d = 0
    while True:
        adj = {v: [w for w in range(n) if frozenset((v, w)) in S] for v in range(n)}
        if all(len(a) - 1 < d for a in adj.values()):
            break
        for p in sorted(S, key=sorted):
            x, y = sorted(p)
            for u, v in ((x, y), (y, x)):
                if any(ref.msep(g, x, y, Z) for Z in itertools.combinations([w for w in adj[u] if w != v], d)):
                    S.discard(p)
                    break
        d += 1
    return len(S) != len(g.edges())


def need(mag, full):
    out = []
    start = ref.Mixed(mag.n)
    for i, j in mag.edges():
        start.set(i, j, 1, 1)
    for b in range(mag.n):
        for a, c in itertools.combinations(mag.nbrs(b), 2):
            if not mag.adj(a, c) and mag.m[a][b] == 2 and mag.m[c][b] == 2:
                start.m[a][b] = start.m[c][b] = 2
    dec = lambda path: mag.m[path[-3]][path[-2]] == 2 and mag.m[path[-1]][path[-2]] == 2
    for k in range(5, 11):
        p = ref.fci_rules(start.copy(), dec, rules=[x for x in range(1, 11) if x != k])
        if p.key() != full.key():
            out.append(f"R{k}")
    save = ref._disc
    ref._disc = lambda *a: None
    try:
        if ref.fci_rules(start.copy(), dec).key() != full.key():
            out.append("R4")
    finally:
        ref._disc = save
    return out


def main(seed, secs, out):
    r = np.random.default_rng(seed)
    res = {}
    t = time.time()
    while time.time() - t < secs:
        w = bidi(r) if r.random() < .5 else selec(r)
        if r.random() < .05:
            w = None
            while w is None:
                n = 8
                E = gen.rand_dag(r, n)
                w = (n, E, [], [], list(range(n)))
        n, E, L, S, obs = w
        mag, _ = ref.mag_from_dag(n, E, L, S)
        if not mag.edges():
            continue
        try:
            full = ref.pag_from_mag(mag)
        except RecursionError:
            continue
        tags = need(mag, full)
        if not S and pd_needed(mag):
            tags.append("PD")
        for g in tags:
            lst = res.setdefault(g, [])
            if len(lst) < 60:
                lst.append([n, sorted(E), L, S, obs])
    json.dump(res, open(out, "w"))
    print({k: len(v) for k, v in res.items()})


if __name__ == "__main__":
    main(int(sys.argv[1]), float(sys.argv[2]), sys.argv[3])
