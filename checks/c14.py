"""C14: the factorization decides positive definiteness, lazily and exactly."""

import numpy as np

from ellalgo.oracles.ldlt_mgr import LDLTMgr
from vlib import mats
from vlib.core import Violation  # noqa: F401

PROPERTY = "C14"
VOLUME = 3
ANCHORS = ["oracles/ldlt_mgr.py"]
RULE = (
    "symmetric matrices with exactly known inertia (integer L, power-of-two D), random spectra "
    "with margin, integer matrices judged in rational arithmetic; sequences through one manager; "
    "distinct = (source, size, verdict, first bad row, reuse depth)"
)
REQUIRED = {
    "decided:pd": 800, "decided:not-pd": 800, "exactly-singular": 100, "sqrt": 800,
    "lazy": 2000, "semi:psd-accepted": 100, "semi:rejected": 200, "misuse": 100,
}
ASSUMPTIONS = [
    "semidefinite variant: acceptance of indefinite matrices behind an exact zero pivot is the "
    "recorded known finding; it is recognised by that mechanism only"
]


def verdict(A, src, D):
    """(is PD, first bad row or None, decidable in floating point)."""
    n = len(A)
    if src == "dyadic":
        bad = [i for i in range(n) if D[i] <= 0]
        return not bad, (bad[0] if bad else None), True
    piv = mats.exact_pivots(A)
    scale = max(float(np.abs(A).max()), 1e-300)
    ok = len(piv) == n and piv[-1] > 0
    # decidable when no pivot up to the verdict is within rounding of zero
    margin = min(abs(float(p)) for p in piv) / scale
    return ok, (None if ok else len(piv) - 1), margin > 1e-9


def source(case, n):
    r = case.rng
    src = str(r.choice(["dyadic", "spectrum", "integer"])) if n <= 16 else "dyadic"
    D = None
    if src == "dyadic":
        A, D, _ = mats.dyadic(case, n, faint=r.random() < 0.3)
    elif src == "spectrum":
        A, _ = mats.spectrum(case, n)
    else:
        A = mats.integer(case, n)
    return A, src, D


def pick_n(case):
    r = case.rng
    u = r.random()
    if u < 0.81:
        return int(r.integers(1, 8))
    if u < 0.85:
        return case.hot_int(1, 80, 5)
    c = [k for k in case.lits["ints"] if 1 <= k <= 16]
    if u > 0.995:
        return int(r.integers(16, 81))
    return int(r.choice(c)) if c and u < 0.9 else int(r.integers(8, 15))


def decide(case):
    r = case.rng
    n = pick_n(case)
    mgr = case.sut(LDLTMgr, n)
    pool = [source(case, n)[0] for _ in range(3)]

    def warm(i):
        if not case.sut(mgr.factorize if i % 2 else lambda M: mgr.factor(lambda a, b: M[a, b]), pool[i % 3]):
            case.sut(mgr.witness)

    case.prelude(warm)
    for depth in range(int(r.integers(1, 5))):
        A, src, D = source(case, n)
        pd, bad, clear = verdict(A, src, D)
        M = A.copy()
        if r.random() < 0.1:
            M = np.asfortranarray(M)
        if src == "integer" and r.random() < 0.5:
            M = np.rint(M).astype(int)
        keep = M.copy()
        mode = str(r.choice(["factorize", "factor"]))
        seen = []
        if mode == "factorize":
            M.setflags(write=False)
            got = case.sut(mgr.factorize, M)
        else:

            def get(i, j):
                seen.append((i, j))
                return M[i, j]

            got = case.sut(mgr.factor, get)
        case.check(np.array_equal(M, keep), "the matrix was modified")
        wit = dict(matrix=A, got=got, source=src, first_bad_row=bad, depth=depth, mode=mode)
        if not clear:
            case.hit("too-close-to-call")
            continue
        case.check(bool(got) == pd and bool(mgr.is_spd()) == pd, "wrong verdict on positive definiteness", **wit)
        case.hit("decided:pd" if pd else "decided:not-pd")
        if not pd and src == "dyadic" and D[bad] == 0.0:
            case.hit("exactly-singular")
        if mode == "factor":
            case.hit("lazy")
            last = n - 1 if pd else bad
            seen = [(max(t), min(t)) for t in seen]  # either triangle will do
            case.check(
                all(0 <= j <= i <= last for i, j in seen),
                "entries beyond the row that settles the verdict were read",
                read=[t for t in seen if not 0 <= t[1] <= t[0] <= last][:5], **wit,
            )
            case.check(
                set(seen) == {(i, j) for i in range(last + 1) for j in range(i + 1)},
                "the verdict was reached without reading the entries it depends on", read=seen[:50], **wit,
            )
        if pd:
            R = np.array(case.sut(mgr.sqrt))
            scale = float(np.abs(A).max())
            case.hit("sqrt")
            case.check(bool(np.all(np.tril(R, -1) == 0)), "square root is not upper triangular", R=R, **wit)
            case.check(
                float(np.abs(R.T @ R - A).max()) <= 1e-12 * n * scale, "square root does not reproduce the matrix", R=R, **wit
            )
            case.check(bool(np.all(np.diag(R) > 0)), "square root has a non-positive diagonal", **wit)
            try:
                mgr.witness()
                case.check(False, "a certificate of indefiniteness was issued for a definite matrix", **wit)
            except Exception as e:  # noqa: BLE001
                if isinstance(e, Violation):
                    raise
                case.hit("misuse")
            case.check(
                bool(mgr.is_spd()) and np.array_equal(np.array(mgr.sqrt()), R), "asking for a certificate changed the factor", **wit
            )
        else:
            try:
                mgr.sqrt()
                case.check(False, "a square root was returned for a matrix that has none", **wit)
            except Exception as e:  # noqa: BLE001
                if isinstance(e, Violation):
                    raise
                case.hit("misuse")
        case.signature(src, n, pd, bad, depth, mode)
    case.show(n=n, source=src, pd=pd, first_bad=bad)


def semi(case):
    """The variant that tolerates semidefinite matrices."""
    r = case.rng
    n = min(pick_n(case), 16)
    mgr = case.sut(LDLTMgr, n)
    pool = [source(case, n)[0] for _ in range(3)]

    def warm(i):
        if not case.sut(mgr.factorize if i % 2 else lambda M: mgr.factor(lambda a, b: M[a, b]), pool[i % 3]):
            case.sut(mgr.witness)

    case.prelude(warm)
    for depth in range(int(r.integers(1, 4))):
        kind = str(r.choice(["psd", "any", "spectrum", "integer"]))
        if case.index == 0:
            kind = "integer"
        if kind == "psd":  # exactly singular
            Lo = np.eye(n)
            p = float(r.choice([0.15, 0.6]))
            for i in range(n):
                for j in range(i):
                    if r.random() < p:
                        Lo[i, j] = int(r.integers(-2, 3))
            D = 2.0 ** r.integers(-2, 4, n)
            D[r.random(n) < 0.4] = 0.0
            A = Lo @ np.diag(D) @ Lo.T
            exact = True
        elif kind == "any":
            A, D, _ = mats.dyadic(case, n, faint=r.random() < 0.3)
            exact = True
        elif kind == "integer":
            A = mats.integer(case, n)
            A[np.diag_indices(n)] *= r.random(n) < 0.6
            if case.index == 0:
                n = 2
                mgr = case.sut(LDLTMgr, n)
                A = np.array([[0.0, 1.0], [1.0, 0.0]])
            exact = True
        else:
            A, _ = mats.spectrum(case, n)
            exact = False
        if exact:
            psd = mats.exact_psd(A)
            acc, zero, exact = mats.restart_accepts(A)
            if not exact:  # rounding decides: no verdict either way
                case.hit("semi:not-exact")
                continue
        else:
            piv = mats.exact_pivots(A)
            if min(abs(float(p)) for p in piv) < 1e-9 * float(np.abs(A).max()):
                continue
            psd = len(piv) == n and piv[-1] > 0
        got = bool(case.sut(mgr.factor_with_allow_semidefinite, lambda i, j: A[i, j]))
        wit = dict(matrix=A, got=got, psd=psd)
        if psd:
            case.check(got, "a positive semidefinite matrix was rejected", **wit)
            case.hit("semi:psd-accepted")
        elif got:
            case.check(
                kind != "spectrum" and acc and zero, "an indefinite matrix was accepted", **wit
            )
            case.finding(
                "zero-pivot-accepts-indefinite",
                "factor_with_allow_semidefinite accepts an indefinite matrix after an exact zero pivot",
            )
            case.hit("semi:known-finding")
        else:
            case.hit("semi:rejected")
            ep = float(case.sut(mgr.witness))
            v = np.array(mgr.wit, dtype=float)
            q = float(v @ A @ v)
            s = float(v @ v) * float(np.abs(A).max()) * n
            case.check(ep > 0 and abs(q + ep) <= 1e-9 * s, "rejection without a valid certificate", witness=v, ep=ep, quad=q, **wit)
        case.signature("semi", kind, n, psd, got, depth)


FAMILIES = {
    "decide": (decide, 25000, 200000),
    "semi": (semi, 10000, 80000),
}
