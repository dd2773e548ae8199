"""C11: the discrete optimizer follows the retry protocol and keeps the certified point."""

import numpy as np

from checks.c07 import options
from checks.c09 import gammas
from ellalgo.cutting_plane import cutting_plane_optim_q
from ellalgo.ell_config import CutStatus, Options
from vlib import ellipsoid as E
from vlib import trace as T
from vlib.core import Violation

PROPERTY = "C11"
ANCHORS = ["cutting_plane.py"]
RULE = (
    "scripted oracle/space pairs (random interleavings of accepted/ineffective cuts, alternatives "
    "or none, improvements, reused point buffers, faults) and recorded runs on the real spaces; "
    "distinct = (cause, stop step, limit, retries, improvements, buffers)"
)
REQUIRED = {
    "stop:NoSoln": 150, "stop:NoEffect": 150, "stop:size": 150, "stop:limit": 150,
    "retry-asked": 1000, "improved": 1000, "faults-out": 100, "real": 150, "real-retry": 20,
}


def scripted(case, lengthy=False):
    r = case.rng
    n = int(r.integers(1, 5))
    lits = [k for k in case.lits["ints"] if 0 <= k <= 60]
    m = int(r.choice([0, 1, 2, 3, 5, 8, 13, 40, int(r.choice(lits)), 150, int(r.choice([700, 2500]))],
                     p=[0.06, 0.12, 0.12, 0.12, 0.12, 0.12, 0.12, 0.1, 0.09, 0.02, 0.01]))
    tol = float(r.choice([1e-20, 1e-8, 1.0, 0.0, 1e-3, 1e12, -1.0]))
    if r.random() < 0.06:
        tol = case.hot(1e-300, 1e12, tol)
    if r.random() < 0.06:
        m = case.hot_int(0, 400, m)
    if r.random() < 0.2:
        tol = int(tol) if tol >= 1.0 else np.float64(tol)
    default = r.random() < 0.05
    if default:
        m, tol = 2000, 1e-20
    K = m
    if lengthy:
        default = False
        m, K = T.long_limit(case)
    cause = "limit" if m == 0 else str(r.choice(["NoSoln", "NoEffect", "size", "limit"]))
    if K < m and cause == "limit":
        cause = "NoSoln"
    stop = m if cause == "limit" else int(r.integers(0, max(1, K))) if r.random() < 0.7 else K - 1
    centers = T.random_centers(case, K + 3, n)
    next_cut = T.cut_source(case, n)
    pe = float(r.choice([0.0, 0.2, 0.6]))
    statuses = [CutStatus.NoEffect if f else CutStatus.Success for f in T.random_flags(case, K + 3, pe)]
    alts = [s == CutStatus.NoEffect or bool(r.random() < 0.5) for s in statuses]
    sizes = T.random_sizes(case, K + 3, tol, stop if cause == "size" else None)
    if cause == "NoSoln":
        statuses[stop] = CutStatus.NoSoln
        alts[stop] = bool(r.random() < 0.5)
    elif cause == "NoEffect":
        statuses[stop], alts[stop] = CutStatus.NoEffect, False
    p = float(r.choice([0.0, 0.2, 0.5, 1.0]))
    improve = T.random_flags(case, K + 3, p)
    vals = gammas(case, K + 4)
    sc = T.Script(case, 4 * K + 20)
    sp = T.MockSpace(sc, n, centers, statuses, sizes, in_place=r.random() < 0.5)
    xbuf = np.zeros(n)
    xmode = str(r.choice(["fresh", "buffer", "list"]))
    cur = {"gamma": vals[0], "best": None, "cut": None, "retry": False, "retries": 0}

    class Om:
        asked = 0

        def assess_optim_q(self, x, gamma, retry):
            sc.event("assess")
            k = self.asked
            self.asked += 1
            case.check(sp.k == k, "the oracle was not asked once per cut", asked=k, cuts=sp.k)
            case.check(np.array_equal(np.asarray(x, float), sp.center()), "not asked about the current center", asked=x)
            case.check(gamma == cur["gamma"], "the oracle was not given the best value so far", got=gamma, best=cur["gamma"])
            case.check(
                bool(retry) == cur["retry"] and isinstance(retry, (bool, np.bool_)),
                "an alternative is asked for exactly after an ineffective cut", got=retry, expected=cur["retry"], step=k,
            )
            if retry:
                case.hit("retry-asked")
                cur["retries"] += 1
            xq = r.normal(size=n)
            if xmode == "buffer":
                xbuf[:] = xq
                out = xbuf
            elif xmode == "list":
                out = xq.tolist()
            else:
                out = xq.copy()
            cut = next_cut()
            cur["cut"] = T.copy_of(cut)
            g1 = None
            if improve[k]:
                g1 = cur["gamma"] = vals[k + 1]
                cur["best"] = xq
                case.hit("improved")
            return cut, out, g1, alts[k]

    om = Om()
    upd = sp._update

    def checked(method, cut):
        case.check(cur["cut"] is not None, "a cut was applied that the oracle did not just give")
        case.check(T.same_cut(cut, cur["cut"]), "the cut reached the space altered", given=cur["cut"], got=cut)
        case.check(method == "q", "the discrete optimizer must apply discrete cuts", method=method)
        cur["cut"] = None
        st = upd(method, cut)
        cur["retry"] = st == CutStatus.NoEffect
        if sp.k == (m if cause == "limit" else stop + 1):
            sc.done = True
        return st

    sp._update = checked
    opt, oname = options(case, m, tol)
    fault = r.random() < 0.12 and m > 0
    if fault:
        total = 2 * m if cause == "limit" else 2 * stop + 2
        sc.fault_at = int(r.integers(1, total + 1))
        sc.fault = T.make_fault(case)

    def call():
        if default:
            return cutting_plane_optim_q(om, sp, vals[0])
        return cutting_plane_optim_q(om, sp, vals[0], opt)

    if fault:
        T.expect_fault(case, sc, call)
        case.signature("fault", cause, sc.fault_at, type(sc.fault).__name__)
        return
    x, g, it = case.sut(call)
    case.hit("stop:" + cause)
    case.check(not isinstance(it, bool) and it == stop, "wrong iteration count", got=it, expected=stop, cause=cause)
    case.check(g == cur["gamma"], "the value returned is not the last one the oracle certified", got=g, expected=cur["gamma"])
    if cur["best"] is None:
        case.check(x is None, "a point was returned although none was certified", got=x)
    else:
        sp.buf[:] = 54321.0
        xbuf[:] = -54321.0
        case.check(
            x is not None and np.array_equal(np.asarray(x, float), cur["best"]),
            "the point returned is not the one certified with the returned value", got=x, expected=cur["best"],
        )
    case.signature(cause, stop, m, cur["retries"], sum(improve[:stop]), oname, sp.in_place, xmode)
    case.show(cause=cause, stop=stop, limit=m, retries=cur["retries"], returned=[x, str(g), it])


def real(case):
    """Integer least squares by rounding the center, on the real spaces."""
    r = case.rng
    cls = E.SPACES[str(r.choice(list(E.SPACES)))]
    n = int(r.integers(2, 5))
    t = r.normal(size=n) * 3
    B = r.normal(size=(n, n)) + 2 * np.eye(n)
    Q = B.T @ B
    hist = []
    xbuf = np.zeros(n)
    alts = int(r.integers(0, 4))

    def f(x):
        return float((x - t) @ Q @ (x - t))

    class Om:
        left = 0

        def assess_optim_q(self, xc, gamma, retry):
            xc = np.array(xc, dtype=float)
            case.check(np.array_equal(xc, np.asarray(space.xc(), float)), "not asked about the current center")
            best = [h for h in hist if h["val"] is not None]
            want = best[-1]["val"] if best else 1e9
            case.check(gamma == want, "the oracle was not given the best value so far", got=gamma, best=want)
            exp = bool(hist) and hist[-1]["st"] == CutStatus.NoEffect
            case.check(bool(retry) == exp, "an alternative is asked for exactly after an ineffective cut", got=retry)
            if retry:
                case.hit("real-retry")
                self.left -= 1
                xq = np.round(xc + r.uniform(-0.9, 0.9, n))
            else:
                self.left = alts
                xq = np.round(xc)
            v = f(xq)
            g = 2 * Q @ (xq - t)
            if not g.any():
                g = np.ones(n)
            h = {"val": None, "x": xq}
            hist.append(h)
            if v < gamma:
                h["val"] = v
                beta = float(g @ (xc - xq))
            else:
                beta = float(g @ (xc - xq)) + v - gamma
            h["cut"] = (g, beta)
            h["more"] = self.left > 0
            xbuf[:] = xq
            return h["cut"], xbuf, h["val"], h["more"]

    class Rec(cls):
        def update_q(self, cut):
            case.check(T.same_cut(hist[-1]["cut"], cut), "cut altered on its way")
            st = super().update_q(cut)
            hist[-1]["st"], hist[-1]["tsq"] = st, float(self.tsq())
            return st

        def update_bias_cut(self, cut):
            raise Violation("discrete optimizer applied an offset cut")

        def update_central_cut(self, cut):
            raise Violation("discrete optimizer applied a central cut")

    space = Rec(float(r.choice([10.0, 100.0, 400.0])), np.zeros(n))
    opt = Options()
    opt.max_iters = int(r.choice([3, 30, 300]))
    opt.tolerance = float(r.choice([1e-20, 1e-8, 1e-2]))
    x, g, it = case.sut(cutting_plane_optim_q, Om(), space, 1e9, opt)
    xbuf[:] = 777.0
    case.hit("real")
    best = [h for h in hist if h["val"] is not None]
    case.check(g == (best[-1]["val"] if best else 1e9), "value returned is not the best certified", got=g)
    if best:
        case.check(np.array_equal(x, best[-1]["x"]), "point returned is not the best certified", got=x, best=best[-1]["x"])
        case.check(g == min(h["val"] for h in best), "a better certified value was dropped")
    else:
        case.check(x is None, "a point was returned although none was certified")

    def stops(h):
        return (
            h["st"] == CutStatus.NoSoln
            or (h["st"] == CutStatus.NoEffect and not h["more"])
            or h["tsq"] < opt.tolerance
        )

    last = hist[-1]
    case.check(stops(last) or len(hist) == opt.max_iters, "stopped without a reason")
    case.check(it == (len(hist) - 1 if stops(last) else opt.max_iters), "wrong iteration count", got=it, cuts=len(hist))
    case.check(not any(stops(h) for h in hist[:-1]), "went on past a stop")
    case.signature("real", cls.__name__, n, len(best), it // 3, last["st"].name)


def lengthy(case):
    scripted(case, True)


FAMILIES = {
    "lengthy": (lengthy, 120, 800),
    "scripted": (scripted, 16000, 90000),
    "real": (real, 1000, 8000),
}
