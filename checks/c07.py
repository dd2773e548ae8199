"""C07: what the feasibility solver returns is what its oracle and space said."""

import numpy as np

from ellalgo.cutting_plane import cutting_plane_feas
from ellalgo.ell_config import CutStatus, Options
from vlib import ellipsoid as E
from vlib import trace as T
from vlib.core import Violation

PROPERTY = "C07"
ANCHORS = ["cutting_plane.py"]
RULE = (
    "scripted oracle/space pairs (every stop cause at every position, boundary sizes, in-place "
    "centers, injected exceptions) and recorded real solves, checked online against the trace "
    "specification; distinct = (stop cause, stop step, limit, option object, in-place, fault)"
)
REQUIRED = {
    "stop:found": 200, "stop:status": 200, "stop:size": 150, "stop:limit": 150,
    "faults-out": 100, "real-found": 60, "real-none": 20,
}


def options(case, m, tol):
    r = case.rng
    u = r.random()
    if u < 0.4:
        o = Options()
        o.max_iters, o.tolerance = m, tol
        return o, "Options"
    if u < 0.7:
        return T.FixedOptions(m, tol), "subclass"
    return T.PlainOptions(m, tol), "plain"


def scripted(case, lengthy=False):
    r = case.rng
    n = int(r.integers(1, 5))
    lits = [k for k in case.lits["ints"] if 0 <= k <= 60]
    m = int(r.choice([0, 1, 2, 3, 5, 8, 13, 40, int(r.choice(lits)), 150, int(r.choice([700, 2500]))], p=[0.06, 0.12, 0.12, 0.12, 0.12, 0.12, 0.12, 0.1, 0.09, 0.02, 0.01]))
    tol = float(r.choice([1e-20, 1e-8, 1.0, 0.0, 1e-3, 1e12, -1.0]))
    if r.random() < 0.06:
        tol = case.hot(1e-300, 1e12, tol)
    if r.random() < 0.06:
        m = case.hot_int(0, 400, m)
    if r.random() < 0.2:
        tol = int(tol) if tol >= 1.0 else np.float64(tol)
    default = r.random() < 0.05
    if default:
        m, tol = 2000, 1e-20
    K = m
    if lengthy:
        default = False
        m, K = T.long_limit(case)
    cause = str(r.choice(["found", "status", "size", "limit"]))
    if m == 0:
        cause = "limit"
    if K < m and cause == "limit":
        cause = "found"
    stop = int(r.integers(0, max(1, K))) if r.random() < 0.7 else max(0, K - 1)
    if cause == "limit":
        stop = m
    centers = T.random_centers(case, K + 3, n)
    next_cut = T.cut_source(case, n)
    if r.random() < 0.2:
        centers[stop] = np.zeros(n)
    statuses = [CutStatus.Success] * (K + 3)
    if cause == "status":
        statuses[stop] = [CutStatus.NoSoln, CutStatus.NoEffect, CutStatus.Unknown][int(r.integers(3))]
    sizes = T.random_sizes(case, K + 3, tol, stop if cause == "size" else None)
    if cause == "status" and r.random() < 0.3:
        sizes[stop] = 0.0
    sc = T.Script(case, 4 * K + 20)
    sp = T.MockSpace(sc, n, centers, statuses, sizes, in_place=r.random() < 0.5)
    given = []

    class Om:
        asked = 0

        def assess_feas(self, x):
            sc.event("assess")
            k = self.asked
            self.asked += 1
            case.check(sp.k == k, "the oracle was not asked once per cut", asked=k, cuts=sp.k)
            case.check(
                np.array_equal(np.asarray(x, dtype=float), sp.center()),
                "the oracle was asked about a point that is not the current center",
                asked=x,
                center=sp.center(),
            )
            if cause == "found" and k == stop:
                sc.done = True
                return None
            cut = next_cut()
            if r.random() < 0.1:
                cut = (np.zeros(n), 0.0)
            given.append((T.copy_of(cut), cut))
            return cut

    om = Om()
    upd = sp._update

    def checked(method, cut):
        case.check(len(given) == sp.k + 1, "a cut was applied that the oracle did not just give")
        case.check(method == "bias", "the feasibility solver must apply offset cuts", method=method)
        case.check(T.same_cut(cut, given[-1][0]), "the cut reached the space altered", given=given[-1][0], got=cut)
        st = upd(method, cut)
        if cause in ("status", "size") and sp.k == stop + 1:
            sc.done = True
        if cause == "limit" and sp.k == m:
            sc.done = True
        return st

    sp._update = checked
    opt, oname = options(case, m, tol)
    fault = r.random() < 0.15 and m > 0
    if fault:
        total = {"found": 2 * stop + 1, "limit": 2 * m}.get(cause, 2 * stop + 2)
        sc.fault_at = int(r.integers(1, total + 1))
        sc.fault = T.make_fault(case)

    def call():
        if default:
            return cutting_plane_feas(om, sp)
        if r.random() < 0.5:
            return cutting_plane_feas(om, sp, opt)
        return cutting_plane_feas(om, sp, options=opt)

    if fault:
        T.expect_fault(case, sc, call)
        case.signature("fault", cause, sc.fault_at, type(sc.fault).__name__)
        return
    x, it = case.sut(call)
    case.hit("stop:" + cause)
    case.check(not isinstance(it, bool) and it == stop, "wrong iteration count", got=it, expected=stop, cause=cause)
    if cause == "found":
        case.check(
            x is not None and np.array_equal(np.asarray(x, dtype=float), np.asarray(centers[stop], dtype=float)),
            "the point returned is not the point the oracle accepted",
            got=x,
        )
    else:
        case.check(x is None, "a point was returned although none was accepted", got=x, cause=cause)
    if m == 0:
        case.check(om.asked == 0 and sp.k == 0, "limit zero still ran")
    case.signature(cause, stop, m, oname, sp.in_place, default)
    case.show(cause=cause, stop=stop, limit=m, tol=tol, returned=[x, it])


def real(case):
    """The same specification on recorded runs over the real spaces."""
    r = case.rng
    cls = E.SPACES[str(r.choice(list(E.SPACES)))]
    n = int(r.integers(2, 7))
    mcons = int(r.integers(1, 3 * n))
    A = r.normal(size=(mcons, n))
    x0 = r.normal(size=n)
    b = A @ x0 + np.abs(r.normal(size=mcons)) * float(r.choice([1.0, 0.1, 0.01]))
    if r.random() < 0.35:  # make it infeasible
        A = np.vstack([A, -A[:1]])
        b = np.append(b, -b[0] - float(r.uniform(0.05, 1.0)))
    events = []
    accepted = []
    rr = {"i": 0}

    class Om:
        def assess_feas(self, x):
            x = np.array(x, dtype=float)
            events.append(("assess", x))
            case.check(np.array_equal(x, np.asarray(space.xc(), float)), "not asked about the current center")
            for _ in range(len(b)):
                k = rr["i"] = (rr["i"] + 1) % len(b)
                v = float(A[k] @ x - b[k])
                if v > 0:
                    cut = (A[k].copy(), v if r.random() < 0.7 else (v, v + 5.0))
                    events.append(("cut", cut))
                    return cut
            accepted.append(x)
            return None

    class Rec(cls):
        def update_bias_cut(self, cut):
            case.check(events and events[-1][0] == "cut" and T.same_cut(events[-1][1], cut), "cut altered on its way")
            st = super().update_bias_cut(cut)
            events.append(("status", st, float(self.tsq())))
            return st

        def update_central_cut(self, cut):
            raise Violation("feasibility run applied a central cut")

        def update_q(self, cut):
            raise Violation("feasibility run applied a discrete cut")

    space = Rec(float(10.0 ** r.uniform(0, 2)), np.zeros(n))
    opt = Options()
    opt.max_iters = int(r.choice([5, 50, 400]))
    opt.tolerance = float(r.choice([1e-20, 1e-8, 1e-2]))
    x, it = case.sut(cutting_plane_feas, Om(), space, opt)
    stats = [e for e in events if e[0] == "status"]
    if x is not None:
        case.hit("real-found")
        case.check(accepted and np.array_equal(x, accepted[-1]) and len(accepted) == 1, "returned point was not accepted")
        case.check(bool(np.all(A @ x <= b)), "returned point is infeasible", x=x)
        case.check(it == len(stats), "wrong iteration count", got=it, cuts=len(stats))
        case.check(all(s[1] == CutStatus.Success and not s[2] < opt.tolerance for s in stats), "went on past a stop")
    else:
        case.hit("real-none")
        case.check(not accepted, "an accepted point was not returned")
        last = stats[-1] if stats else None
        stopped = last and (last[1] != CutStatus.Success or last[2] < opt.tolerance)
        case.check(stopped or len(stats) == opt.max_iters, "gave up without a reason", it=it, cuts=len(stats))
        case.check(it == (len(stats) - 1 if stopped else opt.max_iters), "wrong iteration count", got=it, cuts=len(stats))
        case.check(all(s[1] == CutStatus.Success and not s[2] < opt.tolerance for s in stats[:-1]), "went on past a stop")
    case.signature("real", cls.__name__, n, x is None, it // 4)


def lengthy(case):
    scripted(case, True)


FAMILIES = {
    "lengthy": (lengthy, 120, 800),
    "scripted": (scripted, 16000, 90000),
    "real": (real, 800, 6000),
}
