"""Symmetric test matrices with an exactly known inertia, and exact oracles."""

from fractions import Fraction

import numpy as np


def exact_pivots(A):
    """Pivots of A = L D L' in rational arithmetic up to the first zero or negative one."""
    n = len(A)
    M = [[Fraction(float(A[max(i, j)][min(i, j)])) for j in range(n)] for i in range(n)]
    piv = []
    for k in range(n):
        d = M[k][k]
        piv.append(d)
        if d <= 0:
            break
        for i in range(k + 1, n):
            f = M[i][k] / d
            if f:
                for j in range(k + 1, i + 1):
                    M[i][j] -= f * M[j][k]
                    M[j][i] = M[i][j]
    return piv


def exact_psd(A):
    """Positive semidefinite, decided exactly by elimination with zero-row test."""
    n = len(A)
    M = [[Fraction(float(A[max(i, j)][min(i, j)])) for j in range(n)] for i in range(n)]
    for k in range(n):
        d = M[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(M[i][k] != 0 for i in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / d
            for j in range(k + 1, i + 1):
                M[i][j] -= f * M[j][k]
                M[j][i] = M[i][j]
    return True


def restart_accepts(A):
    """Elimination that restarts behind every exact zero pivot, in rational arithmetic:
    (accepts, a zero pivot was met, float elimination makes no rounding error)."""
    n = len(A)
    F = [[Fraction(float(A[max(i, j)][min(i, j)])) for j in range(n)] for i in range(n)]
    start = 0
    zero = False
    exact = True

    def small(q):
        d = q.denominator
        return d & (d - 1) == 0 and d <= 2**20 and abs(q.numerator) < 2**30

    while start < n:
        B = [[F[i][j] for j in range(start, n)] for i in range(start, n)]
        m = n - start
        again = None
        for k in range(m):
            d = B[k][k]
            exact = exact and small(d)
            if d < 0:
                return False, zero, exact
            if d == 0:
                again = start + k + 1
                zero = True
                break
            for i in range(k + 1, m):
                f = B[i][k] / d
                exact = exact and small(f)
                for j in range(k + 1, i + 1):
                    B[i][j] -= f * B[j][k]
                    B[j][i] = B[i][j]
                    exact = exact and small(B[i][j])
        if again is None:
            return True, zero, exact
        start = again
    return True, zero, exact


def dyadic(case, n, pattern=None, faint=False):
    """A = L D L' with integer L and power-of-two D: float elimination is exact, so
    singular and barely indefinite matrices can be decided exactly.  With faint,
    pivots may be tiny against the rest of the matrix, as far as 53 bits allow: all
    partial sums are multiples of the least pivot and are bounded, hence exact."""
    r = case.rng
    L = np.eye(n)
    for i in range(n):
        for j in range(i):
            if r.random() < 0.6:
                L[i, j] = int(r.integers(-2, 3))
    D = 2.0 ** r.integers(-2, 4, n)
    if pattern is None:
        pattern = str(r.choice(["pd", "pd", "neg", "zero", "mixed"]))
    if pattern != "pd":
        k = int(r.integers(n))
        D[k] = {"neg": -D[k], "zero": 0.0, "mixed": -D[k]}[pattern]
        if pattern == "mixed":
            for j in range(n):
                if r.random() < 0.4:
                    D[j] = float(r.choice([-1.0, 0.0, 1.0])) * D[j]
    if faint and D[k := int(r.integers(n))] != 0.0:
        room = int(np.log2((np.abs(L) @ np.diag(np.abs(D)) @ np.abs(L.T)).max())) + 2
        low = room - 51
        D[k] = np.sign(D[k]) * 2.0 ** int(low if r.random() < 0.3 else r.integers(low, -1))
    return L @ np.diag(D) @ L.T, D, pattern


def spectrum(case, n, kind=None):
    """Random rotation of a chosen spectrum: clear margin on the sign."""
    r = case.rng
    Q = np.linalg.qr(r.normal(size=(n, n)))[0]
    w = 10.0 ** r.uniform(-3, 3, n) if r.random() < 0.3 else 10.0 ** r.uniform(-1, 1, n)
    if kind is None:
        kind = str(r.choice(["pd", "indef", "neg", "onebad"]))
    if kind == "indef":
        w *= r.choice([-1.0, 1.0], n)
        w[0] = -abs(w[0])
    elif kind == "neg":
        w = -w
    elif kind == "onebad":
        w[0] = -float(10.0 ** r.uniform(-6, 0)) * float(w.max())
    A = (Q * w) @ Q.T
    A = (A + A.T) / 2 * 10.0 ** float(r.choice([0, 0, 0, 6, -6, 30, -30]))
    return A, kind


def integer(case, n):
    r = case.rng
    B = r.integers(-3, 4, (n, n))
    A = B + B.T
    if r.random() < 0.5:
        A = A + int(r.integers(0, 12)) * np.eye(n, dtype=int)
    return A.astype(float)
