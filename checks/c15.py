"""C15: a rejected matrix comes with a vector that proves it."""

import numpy as np

from ellalgo.oracles.ldlt_mgr import LDLTMgr
from vlib import mats

PROPERTY = "C15"
VOLUME = 3
ANCHORS = ["oracles/ldlt_mgr.py"]
UNREACHED_OK = ("sqrt", "witness", "sym_quad")
RULE = (
    "rejected matrices of every kind through fresh and reused managers; the certificate is "
    "evaluated against the matrix and against unrelated matrices; distinct = (source, size, "
    "bad row, reuse depth)"
)
REQUIRED = {"certificate": 3000, "quad": 6000, "reused": 800, "zero-level": 150, "semidefinite-rejected": 500, "same-array": 500}


def certify(case):
    r = case.rng
    n = int(r.integers(1, 8)) if r.random() < 0.85 else int(r.integers(8, 15))
    if r.random() < 0.04:
        n = case.hot_int(1, 80, n)
    elif r.random() < 0.006:
        n = int(r.integers(16, 81))
    mgr = case.sut(LDLTMgr, n)
    pool = [(mats.integer(case, n), np.eye(n))[int(r.integers(4) == 0)] for _ in range(3)]

    def warm(i):
        if not case.sut(mgr.factorize, pool[i % 3]):
            case.sut(mgr.witness)
            case.sut(mgr.sym_quad, pool[(i + 1) % 3])

    case.prelude(warm)
    rejected = 0
    for depth in range(int(r.integers(1, 8))):
        src = str(r.choice(["dyadic", "spectrum", "integer"]))
        if src == "dyadic":
            A, D, _ = mats.dyadic(case, n)
        elif src == "spectrum":
            A, _ = mats.spectrum(case, n)
        else:
            A = mats.integer(case, n)
        M = A.copy()
        if r.random() < 0.3:
            # the variant that allows zero pivots, with whole blocks of them
            if r.random() < 0.7 and n > 1:
                A, D, _ = mats.dyadic(case, n, "mixed")
                k = int(r.integers(1, n))
                T = mats.dyadic(case, n - k, str(r.choice(["neg", "mixed"])))[0]
                Z = np.zeros((k, k)) if r.random() < 0.5 else mats.dyadic(case, k, "zero")[0]
                A = np.zeros((n, n))
                A[:k, :k], A[k:, k:] = Z, T
                if r.random() < 0.3:
                    A[k:, :k] = r.integers(-2, 3, (n - k, k))
                    A[:k, k:] = A[k:, :k].T
                M = A.copy()
                src = "blocks"
            ok = case.sut(mgr.factor_with_allow_semidefinite, lambda i, j: M[i, j])
            if not ok:
                case.hit("semidefinite-rejected")
        elif r.random() < 0.5:
            ok = case.sut(mgr.factorize, M)
        else:
            ok = case.sut(mgr.factor, lambda i, j: M[i, j])
        if ok:
            if r.random() < 0.5 and np.all(np.linalg.eigvalsh(A) > 1e-12):
                case.sut(mgr.sqrt)
            continue
        ep = float(case.sut(mgr.witness))
        if r.random() < 0.3:
            ep2 = float(case.sut(mgr.witness))  # asking twice is harmless
            case.check(ep == ep2, "asking again gives another certificate", first=ep, second=ep2)
        v = np.array(mgr.wit, dtype=float)
        wit = dict(matrix=A, vector=v, level=ep, source=src, depth=depth)
        case.check(v.shape == (n,) and bool(np.all(np.isfinite(v))) and bool(v.any()), "certificate is not a non-zero vector", **wit)
        case.check(ep >= 0.0, "certificate has a negative level", **wit)
        s = float(v @ v) * max(float(np.abs(A).max()), 1e-300) * n
        q = float(v @ A @ v)
        case.check(abs(q + ep) <= 1e-10 * s, "certificate does not evaluate to its level", quad=q, **wit)
        case.check(q <= 1e-10 * s, "certificate does not prove anything", quad=q, **wit)
        case.hit("certificate")
        if ep == 0.0:
            case.hit("zero-level")
        if rejected:
            case.hit("reused")
        rejected += 1
        same = np.zeros((n, n)) if r.random() < 0.3 else None
        for _ in range(2 if same is None else 3):
            B = r.normal(size=(n, n)) * 10.0 ** float(r.uniform(-3, 3))
            B = B + B.T
            if r.random() < 0.2:
                B = A
            if same is not None:  # the caller rewrites one array
                same[:] = B
                B = same
                case.hit("same-array")
            top = int(np.max(np.flatnonzero(v))) + 1
            ask = B
            if top < n and r.random() < 0.3:  # what lies beyond the examined block is nobody's business
                ask = B.copy()
                ask[top:, :] = ask[:, top:] = float(r.choice([-1.0, 1.0])) * 1e100  # finite: a zero entry of the vector cancels it
                case.hit("beyond-block")
            got = float(case.sut(mgr.sym_quad, ask))
            want = float(v @ B @ v)
            case.hit("quad")
            case.check(
                abs(got - want) <= 1e-10 * float(v @ v) * float(np.abs(B).max()) * n,
                "quadratic form of the certificate is wrong", got=got, want=want, other=B, **wit,
            )
        case.signature(src, n, int(np.max(np.flatnonzero(v))), rejected, ep == 0.0)
    case.show(n=n, rejected=rejected)


FAMILIES = {"certify": (certify, 30000, 200000)}
