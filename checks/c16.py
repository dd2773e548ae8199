"""C16: the matrix-inequality oracles separate exactly."""

import copy

import numpy as np

from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from vlib import mats

PROPERTY = "C16"
VOLUME = 2
ANCHORS = ["oracles/lmi_oracle.py", "oracles/lmi_old_oracle.py", "oracles/lmi0_oracle.py", "oracles/ldlt_mgr.py"]
UNREACHED_OK = ("sqrt", "witness", "sym_quad", "factor", "factor_with_allow_semidefinite")
RULE = (
    "random and structured matrix pencils, sequences of query points through one oracle, each "
    "answer judged by eigenvalues / exact pivots and by feasible points; distinct = (variant, "
    "variables, size, verdict, level sign, call depth)"
)
REQUIRED = {"accepted": 800, "cut": 1500, "separated": 10000, "agree": 800, "homogeneous": 500, "boundary": 30, "same-object": 1000, "integer-data": 300, "zero-coordinates": 500, "other-units": 1000}


def pencil(case):
    r = case.rng
    n = int(r.integers(1, 6)) if r.random() < 0.93 else int(r.integers(6, 25))
    m = int(r.integers(1, 7)) if r.random() < 0.93 else int(r.integers(7, 17))
    if r.random() < 0.04:
        n = case.hot_int(1, 40, n)
    elif r.random() < 0.04:
        m = case.hot_int(1, 24, m)
    kind = str(r.choice(["dense", "int", "diag", "dyadic"]))
    F = []
    for _ in range(n):
        if kind == "dense":
            M = r.normal(size=(m, m))
        elif kind == "diag":
            M = np.diag(r.normal(size=m))
        else:
            M = r.integers(-2, 3, (m, m)).astype(float)
        F.append((M + M.T) / 2 if kind == "dense" else M + M.T)
    z = r.integers(-2, 3, n).astype(float) if kind in ("int", "dyadic") else r.normal(size=n)
    W = r.normal(size=(m, m)) if kind in ("dense", "diag") else r.integers(-1, 2, (m, m)).astype(float)
    pad = float(10.0 ** r.uniform(-2, 0.5)) if kind in ("dense", "diag") else float(r.integers(1, 3))
    S = W @ W.T + pad * np.eye(m)
    case.ux = 1.0
    if r.random() < 0.25:  # other units, of the matrices and of the variables
        whole = kind in ("int", "dyadic")
        su = 2.0 ** int(r.integers(0, 25) if whole else r.integers(-40, 41))
        sx = 1.0 if whole else 2.0 ** int(r.integers(-30, 31))
        case.ux = sx
        F, z, S = [M * (su / sx) for M in F], z * sx, S * su
        case.hit("other-units")
    return n, m, kind, F, z, S


def is_pd(A):
    """True / False / None when rounding decides."""
    m = len(A)
    piv = mats.exact_pivots(A)
    scale = max(float(np.abs(A).max()), 1e-300)
    ok = len(piv) == m and piv[-1] > 0
    return ok if min(abs(float(p)) for p in piv) > 1e-9 * scale else None


def feasible(case, pd_at, z, n, k):
    """Points y with the inequality satisfied, on rays from z, many near the boundary."""
    r = case.rng
    out = [z]
    for _ in range(k):
        d = r.normal(size=n) * case.ux
        lo, hi = 0.0, 1.0
        while hi < 1e6 and pd_at(z + hi * d):
            hi *= 4
        for _ in range(30):
            mid = (lo + hi) / 2
            if pd_at(z + mid * d):
                lo = mid
            else:
                hi = mid
        out.append(z + lo * d * float(r.choice([1.0, r.random()])))
    return out


def zeroed(case, x):
    """Some coordinates exactly zero now and then, sometimes all but one."""
    r = case.rng
    u = r.random()
    if u < 0.2:
        x = x * (r.random(len(x)) < 0.5)
        case.hit("zero-coordinates")
    elif u < 0.25:
        y = np.zeros(len(x))
        k = int(r.integers(len(x)))
        y[k] = x[k]
        x = y
        case.hit("zero-coordinates")
    return x


def edge(pd_at, z, x):
    """Fraction of the way from z (feasible) to x at which feasibility ends."""
    if pd_at(x):
        return 1.0
    lo, hi = 0.0, 1.0
    for _ in range(45):
        mid = (lo + hi) / 2
        if pd_at(z + mid * (x - z)):
            lo = mid
        else:
            hi = mid
    return lo


def judge(case, om, A_of, g_sign, x, ys, name, depth):
    A = A_of(x)
    want = is_pd(A)
    cut = case.sut(om.assess_feas, x)
    wit = dict(variant=name, x=x, matrix=A, cut=cut, depth=depth)
    if want is None:
        case.hit("too-close-to-call")
        if cut is None:
            return None, want
    else:
        case.check((cut is None) == want, "wrong verdict on the matrix inequality", pd=want, **wit)
    if cut is None:
        case.hit("accepted")
        return None, want
    g, ep = cut
    g, ep = np.array(g, dtype=float), float(ep)
    case.hit("cut")
    case.check(g.shape == (len(x),) and bool(np.all(np.isfinite(g))) and np.isfinite(ep), "malformed cut", **wit)
    case.check(ep >= 0.0, "the cut keeps the rejected point", **wit)
    for y in ys:
        lhs = float(g @ (y - x)) + ep
        s = float(np.abs(g) @ np.abs(y - x)) + abs(ep) + 1e-300
        case.hit("separated")
        case.check(lhs <= 1e-8 * s, "the cut removes a point that satisfies the inequality", y=y, value=lhs, **wit)
    return (g, ep), want


def pencils(case):
    r = case.rng
    n, m, kind, F, z, S = pencil(case)
    B = S + sum(Fk * zk for Fk, zk in zip(F, z))  # B - sum F z = S > 0
    keepF, keepB = copy.deepcopy(F), B.copy()
    if kind in ("int", "dyadic") and r.random() < 0.4:  # whole numbers held as such
        B = np.rint(B).astype(int)
        keepB = B.astype(float)
        case.hit("integer-data")
        if r.random() < 0.5:
            F = [M.astype(int) for M in F]

    def A_of(x):
        return keepB - sum(Fk * xk for Fk, xk in zip(keepF, x))

    def pd_at(x):
        try:
            np.linalg.cholesky(A_of(x))
            return True
        except np.linalg.LinAlgError:
            return False

    ys = feasible(case, pd_at, z, n, 5)
    a, b = case.sut(LMIOracle, F, B), case.sut(LMIOldOracle, F, B)
    reuse, buf = bool(r.random() < 0.4), np.zeros(n)

    def warm(i):
        q = z + r.normal(size=n) * case.ux
        case.sut(a.assess_feas, q)
        case.sut(b.assess_feas, q)

    if n * m * m <= 120:
        case.prelude(warm, 0.04, 400)
    for depth in range(int(r.integers(1, 6))):
        x = z + r.normal(size=n) * case.ux * 10.0 ** float(r.uniform(-1.5, 1.5))
        if kind in ("int", "dyadic"):
            x = np.rint(z + r.integers(-3, 4, n))
        x = zeroed(case, x)
        if r.random() < 0.15:  # next to the boundary
            x = ys[int(r.integers(len(ys)))] * 1.0
            x = z + (x - z) * (1 + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-6, -2)))
            case.hit("boundary")
        if depth and r.random() < 0.25:  # next to the last point, on either side of the boundary
            t = edge(pd_at, z, last)
            x = z + (last - z) * t * (1 + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-7, -4)))
            case.hit("near-repeat")
        last = x.copy()
        if reuse:  # the caller works in one buffer
            buf[:] = x
            x = buf
            case.hit("same-object")
        x0 = x.copy()
        ca, want = judge(case, a, A_of, 1, x, ys, "lazy", depth)
        cb, _ = judge(case, b, A_of, 1, x, ys, "dense", depth)
        case.check(np.array_equal(x, x0), "the query point was modified")
        if want is not None:
            case.hit("agree")
            case.check((ca is None) == (cb is None), "the two variants disagree", x=x)
            if ca is not None:
                s = float(np.abs(ca[0]).max()) + abs(ca[1])
                case.check(
                    bool(np.allclose(ca[0], cb[0], rtol=1e-5, atol=1e-6 * s)) and abs(ca[1] - cb[1]) <= 1e-6 * s + 1e-9 * float(np.abs(A_of(x)).max()),
                    "the two variants give different cuts", lazy=ca, dense=cb, x=x, matrix=A_of(x),
                )
        case.signature("pencil", kind, n, m, want, None if ca is None else ca[1] == 0.0, depth)
        if r.random() < 0.25:  # each variable in a unit of its own (powers of two: nothing is rounded)
            u = 2.0 ** r.integers(-30, 31, n)
            G = [Fk * s for Fk, s in zip(keepF, u)]
            for name, cls, ref in (("lazy", LMIOracle, ca), ("dense", LMIOldOracle, cb)):
                cu = case.sut(case.sut(cls, G, keepB.copy()).assess_feas, x0 / u)
                case.hit("own-units")
                wit = dict(variant=name, x=x0, units=u, cut=ref, other=cu)
                if want is not None:
                    case.check((cu is None) == (ref is None), "the verdict depends on the units of the variables", **wit)
                if cu is not None and ref is not None:
                    s = float(np.abs(ref[0]).max()) + abs(ref[1])
                    case.check(bool(np.allclose(np.asarray(cu[0]) / u, ref[0], rtol=1e-5, atol=1e-6 * s)) and abs(float(cu[1]) - ref[1]) <= 1e-6 * s + 1e-9 * float(np.abs(A_of(x0)).max()),
                               "the cut depends on the units of the variables", **wit)
    case.check(all(np.array_equal(p, q) for p, q in zip(F, keepF)) and np.array_equal(B, keepB), "the matrices were modified")
    case.show(kind=kind, n=n, m=m)


def homogeneous(case):
    """sum F_k x_k > 0, and its equivalence with the other two on negated data."""
    r = case.rng
    n, m, kind, F, z, S = pencil(case)
    # plant a feasible direction: replace the last matrix so that sum F z = S
    k = int(r.integers(n))
    if z[k] == 0:
        z[k] = 1.0
    F[k] = (S - sum(F[j] * z[j] for j in range(n) if j != k)) / z[k]
    F[k] = (F[k] + F[k].T) / 2
    keepF = copy.deepcopy(F)

    def A_of(x):
        return sum(Fk * xk for Fk, xk in zip(keepF, x)) + np.zeros((m, m))

    def pd_at(x):
        try:
            np.linalg.cholesky(A_of(x))
            return True
        except np.linalg.LinAlgError:
            return False

    ys = feasible(case, pd_at, z, n, 4)
    om = case.sut(LMI0Oracle, F)
    neg = case.sut(LMIOracle, [-M for M in F], np.zeros((m, m)))
    reuse, buf = bool(r.random() < 0.4), np.zeros(n)
    if n * m * m <= 120:
        case.prelude(lambda i: case.sut(om.assess_feas, z + r.normal(size=n) * case.ux), 0.04, 400)
    for depth in range(int(r.integers(1, 6))):
        x = (z + r.normal(size=n) * case.ux * 10.0 ** float(r.uniform(-1.5, 1.5))) * float(r.choice([1.0, 1.0, -1.0]))
        x = zeroed(case, x)
        if depth and r.random() < 0.25:
            t = edge(pd_at, z, last)
            x = z + (last - z) * t * (1 + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-7, -4)))
            case.hit("near-repeat")
        last = x.copy()
        if reuse:
            buf[:] = x
            x = buf
            case.hit("same-object")
        c0, want = judge(case, om, A_of, -1, x, ys, "homogeneous", depth)
        c1 = case.sut(neg.assess_feas, x)
        case.hit("homogeneous")
        if want is not None:
            case.check((c0 is None) == (c1 is None), "homogeneous variant disagrees with the general one", x=x)
            if c0 is not None:
                s = float(np.abs(c0[0]).max()) + abs(c0[1])
                case.check(
                    bool(np.allclose(c0[0], c1[0], rtol=1e-5, atol=1e-6 * s)), "homogeneous variant gives another cut", a=c0, b=c1, x=x
                )
        case.signature("homog", kind, n, m, want, depth)
    case.check(all(np.array_equal(p, q) for p, q in zip(F, keepF)), "the matrices were modified")


FAMILIES = {
    "pencils": (pencils, 7000, 60000),
    "homogeneous": (homogeneous, 4000, 30000),
}
