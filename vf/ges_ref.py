"""Reference for greedy equivalence search: the valid Insert and Delete operators of Chickering (2002) on (directed, undirected) edge sets."""
import itertools

from . import ref


def nb(U, v):
    return {w for s in U if v in s for w in s if w != v}


def pa(D, v):
    return {a for a, b in D if b == v}


def adj(D, U, v):
    return nb(U, v) | pa(D, v) | {b for a, b in D if a == v}


def clique(D, U, S):
    sk = ref.skeleton(D) | set(U)
    return all(frozenset(p) in sk for p in itertools.combinations(sorted(S), 2))


def blocked(n, D, U, y, x, B):
    """every semi-directed path from y to x meets B"""
    seen, todo = {y}, [y]
    if y in B:
        return True
    while todo:
        v = todo.pop()
        for w in nb(U, v) | {b for a, b in D if a == v}:
            if w == x:
                return False
            if w not in seen and w not in B:
                seen.add(w)
                todo.append(w)
    return True


def subsets(S):
    S = sorted(S)
    return (c for k in range(len(S) + 1) for c in itertools.combinations(S, k))


def inserts(n, D, U, maxp):
    for x, y in itertools.permutations(range(n), 2):
        ax = adj(D, U, x)
        if y in ax or len(pa(D, y)) > maxp:
            continue
        ny = nb(U, y)
        na = ny & ax
        for T in subsets(ny - ax):
            B = na | set(T)
            if clique(D, U, B) and blocked(n, D, U, y, x, B):
                base = B | pa(D, y)
                yield (x, y, T), y, base | {x}, base


def deletes(n, D, U):
    for x, y in itertools.permutations(range(n), 2):
        if not ((x, y) in D or frozenset((x, y)) in U):
            continue
        na = nb(U, y) & adj(D, U, x)
        for H in subsets(na):
            if clique(D, U, na - set(H)):
                base = (na - set(H)) | pa(D, y) - {x}
                yield (x, y, H), y, base, base | {x}


def apply_insert(n, D, U, op):
    x, y, T = op
    D = set(D) | {(x, y)} | {(t, y) for t in T}
    return D, set(U) - {frozenset((t, y)) for t in T}


def apply_delete(n, D, U, op):
    x, y, H = op
    D = set(D) - {(x, y)}
    U = set(U) - {frozenset((x, y))}
    for h in H:
        D.add((y, h))
        U.discard(frozenset((y, h)))
        if frozenset((x, h)) in U:
            U.discard(frozenset((x, h)))
            D.add((x, h))
    return D, U


def close(n, D, U):
    """CPDAG of any consistent extension of the PDAG"""
    F = next(ref.extensions(n, D, U), None)
    return None if F is None else ref.cpdag(n, F)


def key(D, U):
    return frozenset(D), frozenset(U)
