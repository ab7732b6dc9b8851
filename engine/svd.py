"""Contract stub of numpy's singular value decomposition.

A decomposition A = V diag(s) U is derived from a left factor V known to the harness (registered in
W.svd_candidates): V^+ A A^+ V has to be diagonal, and the result is checked against the contract
(A = V diag(s) U, V and U unitary, s descending and non-negative) before it is handed to the code.
Anything else is reported as unsupported."""
import numpy as np

from . import sym
from .sym import S, Unsupported, is_zero


def mm(A, B):
    n, k, m = len(A), len(B), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            t = S.c(0)
            for q in range(k):
                a, b = A[i][q], B[q][j]
                if a.n and b.n:
                    t = t + a * b
            row.append(t)
        out.append(row)
    return out


def dagger(A):
    return [[A[i][j].conjugate() for i in range(len(A))] for j in range(len(A[0]))]


def tidy(A):
    return [[sym.expand(x) if x.n and not x.is_const() else x for x in r] for r in A]


def is_identity(A):
    return all(is_zero(A[i][j] - (1 if i == j else 0)) for i in range(len(A)) for j in range(len(A)))


def completion(rows, i):
    """unit vector orthogonal to the other rows (cofactor construction)"""
    from .shims import LinalgShim
    m = len(rows)
    others = [rows[k] for k in range(m) if k != i]
    out = []
    for j in range(m):
        minor = [[r[c].conjugate() for c in range(m) if c != j] for r in others]
        d = LinalgShim.det(np.array(minor, dtype=object)) if m > 1 else S.c(1)
        out.append(d if j % 2 == 0 else -d)
    return out


def svd_stub(A):
    from . import shims
    W = sym.W
    m = A.shape[0]
    if A.shape != (m, m):
        raise Unsupported("singular values of a rectangular matrix")
    a = [[S.of(A[i, j]) for j in range(m)] for i in range(m)]
    key = tuple(x.key() for r in a for x in r)
    cache = W.__dict__.setdefault("svd_cache", {})
    if key not in cache:
        cache[key] = decompose(a, m)
    V, s, U = cache[key]
    return shims._build(V), shims._build(list(s)), shims._build(U)


def decompose(a, m):
    W = sym.W
    cands = list(W.svd_candidates)
    cands.append([[S.c(int(i == j)) for j in range(m)] for i in range(m)])
    G = mm(a, dagger(a))
    if is_identity(G):
        # unitary: any left factor will do, the matrix itself is one
        one = [[S.c(int(i == j)) for j in range(m)] for i in range(m)]
        return a, [S.c(1)] * m, one
    for V in cands:
        if len(V) != m:
            continue
        D = mm(mm(dagger(V), G), V)
        if not all(is_zero(D[i][j]) for i in range(m) for j in range(m) if i != j):
            continue
        d = [sym.expand(D[i][i]) for i in range(m)]
        s = [x.sqrt() if x.n else S.c(0) for x in d]
        B = mm(dagger(V), a)
        rows = [None] * m
        zeros = []
        for i in range(m):
            if is_zero(s[i]):
                zeros.append(i)
                s[i] = S.c(0)
            else:
                rows[i] = [sym.expand(x / s[i]) for x in B[i]]
        if len(zeros) == m:
            rows = [[S.c(int(i == j)) for j in range(m)] for i in range(m)]
        elif len(zeros) == 1:
            rows[zeros[0]] = [sym.expand(x) for x in completion(rows, zeros[0])]
        elif zeros:
            raise Unsupported("several vanishing singular values")
        # descending order
        order = list(range(m))
        for i in range(m):
            for j in range(m - 1 - i):
                p, q = order[j], order[j + 1]
                if s[p] < s[q]:
                    order[j], order[j + 1] = q, p
        Vo = [[V[i][k] for k in order] for i in range(m)]
        so = [s[k] for k in order]
        Uo = [rows[k] for k in order]
        back = mm([[Vo[i][k] * so[k] for k in range(m)] for i in range(m)], Uo)
        if not all(is_zero(back[i][j] - a[i][j]) for i in range(m) for j in range(m)) or not is_identity(mm(Uo, dagger(Uo))):
            raise Unsupported("singular value decomposition outside the contract stub")
        return Vo, so, Uo
    raise Unsupported("singular value decomposition of an unknown matrix")
