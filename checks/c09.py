"""C09: the optimizer reports exactly the best point and value its oracle certified."""

from fractions import Fraction

import numpy as np

from checks.c07 import options
from ellalgo.cutting_plane import cutting_plane_optim
from ellalgo.ell_config import CutStatus, Options
from vlib import ellipsoid as E
from vlib import trace as T
from vlib.core import Violation

PROPERTY = "C09"
ANCHORS = ["cutting_plane.py"]
RULE = (
    "scripted oracle/space pairs (improvements at random steps incl. zero-valued ones, every stop "
    "cause at every position, in-place centers, injected exceptions) and recorded real solves; "
    "distinct = (cause, stop step, limit, improvements, option object, in-place)"
)
REQUIRED = {
    "stop:status": 200, "stop:size": 200, "stop:limit": 200, "improved": 1000,
    "zero-improvement": 50, "tie": 500, "never-improved": 100, "faults-out": 100, "real": 150,
}


def gammas(case, k):
    """A sequence of values, each at least as good as the one before, of one number type;
    some zero, some repeated (an oracle may accept ties), some improving by next to nothing."""
    r = case.rng
    sign = float(r.choice([-1.0, 1.0]))
    step = np.abs(r.normal(size=k)) + 0.1
    ties = r.random(k) < float(r.choice([0.0, 0.0, 0.3, 0.8]))
    small = r.random(k) < float(r.choice([0.0, 0.0, 0.4]))
    step = np.where(small, 10.0 ** r.uniform(-14, -3, k), step)
    step[ties] = 0.0
    v = np.cumsum(step)
    if r.random() < 0.1:
        v = v * 10.0 ** float(r.uniform(-20, 20))
    zero = int(r.integers(k))
    v = sign * (v - (v[zero] if r.random() < 0.5 else 0.0))
    kind = str(r.choice(["float", "np", "int", "frac"]))
    if kind == "int":
        rank = np.cumsum(~ties)
        out = [int(sign) * int(rank[i] - rank[zero]) for i in range(k)]
    elif kind == "frac":
        rank = np.cumsum(~ties)
        out = [Fraction(int(sign) * int(rank[i] - rank[zero]), 7) for i in range(k)]
    elif kind == "np":
        out = [np.float64(t) for t in v]
    else:
        out = [float(t) for t in v]
    if kind in ("float", "np") and r.random() < 0.1:
        out[0] = type(out[0])(-sign * np.inf)  # nothing known yet
    return out


def scripted(case, lengthy=False):
    r = case.rng
    n = int(r.integers(1, 5))
    lits = [k for k in case.lits["ints"] if 0 <= k <= 60]
    m = int(r.choice([0, 1, 2, 3, 5, 8, 13, 40, int(r.choice(lits)), 150, int(r.choice([700, 2500]))], p=[0.06, 0.12, 0.12, 0.12, 0.12, 0.12, 0.12, 0.1, 0.09, 0.02, 0.01]))
    tol = float(r.choice([1e-20, 1e-8, 1.0, 0.0, 1e-3, 1e12, -1.0]))
    if r.random() < 0.06:
        tol = case.hot(1e-300, 1e12, tol)
    if r.random() < 0.06:
        m = case.hot_int(0, 400, m)
    if r.random() < 0.2:
        tol = int(tol) if tol >= 1.0 else np.float64(tol)
    default = r.random() < 0.05
    if default:
        m, tol = 2000, 1e-20
    K = m
    if lengthy:
        default = False
        m, K = T.long_limit(case)
    cause = "limit" if m == 0 else str(r.choice(["status", "size", "limit"]))
    if K < m and cause == "limit":
        cause = "size"
    stop = m if cause == "limit" else int(r.integers(0, max(1, K))) if r.random() < 0.7 else K - 1
    centers = T.random_centers(case, K + 3, n)
    next_cut = T.cut_source(case, n)
    statuses = [CutStatus.Success] * (K + 3)
    if cause == "status":
        statuses[stop] = [CutStatus.NoSoln, CutStatus.NoEffect, CutStatus.Unknown][int(r.integers(3))]
    sizes = T.random_sizes(case, K + 3, tol, stop if cause == "size" else None)
    p = float(r.choice([0.0, 0.2, 0.5, 1.0]))
    improve = T.random_flags(case, K + 3, p)
    vals = gammas(case, K + 4)
    sc = T.Script(case, 4 * K + 20)
    sp = T.MockSpace(sc, n, centers, statuses, sizes, in_place=r.random() < 0.5)
    cur = {"gamma": vals[0], "best": None, "cut": None, "improved": False}

    class Om:
        asked = 0

        def assess_optim(self, x, gamma):
            sc.event("assess")
            k = self.asked
            self.asked += 1
            case.check(sp.k == k, "the oracle was not asked once per cut", asked=k, cuts=sp.k)
            case.check(np.array_equal(np.asarray(x, float), sp.center()), "not asked about the current center", asked=x)
            case.check(
                gamma == cur["gamma"], "the oracle was not given the best value so far", got=gamma, best=cur["gamma"]
            )
            cut = next_cut()
            cur["cut"] = T.copy_of(cut)
            cur["improved"] = improve[k]
            if improve[k]:
                cur["gamma"] = vals[k + 1]
                cur["best"] = sp.center()
                case.hit("improved")
                if vals[k + 1] == 0:
                    case.hit("zero-improvement")
                if gamma == vals[k + 1]:
                    case.hit("tie")
                return cut, vals[k + 1]
            return cut, None

    om = Om()
    upd = sp._update

    def checked(method, cut):
        case.check(cur["cut"] is not None, "a cut was applied that the oracle did not just give")
        case.check(T.same_cut(cut, cur["cut"]), "the cut reached the space altered", given=cur["cut"], got=cut)
        case.check(
            method == ("central" if cur["improved"] else "bias"),
            "improvements take a cut through the center, everything else an offset cut",
            method=method, improved=cur["improved"],
        )
        cur["cut"] = None
        st = upd(method, cut)
        if sp.k == (m if cause == "limit" else stop + 1):
            sc.done = True
        return st

    sp._update = checked
    opt, oname = options(case, m, tol)
    fault = r.random() < 0.12 and m > 0
    if fault:
        total = 2 * m if cause == "limit" else 2 * stop + 2
        sc.fault_at = int(r.integers(1, total + 1))
        sc.fault = T.make_fault(case)

    def call():
        if default:
            return cutting_plane_optim(om, sp, vals[0])
        if r.random() < 0.5:
            return cutting_plane_optim(om, sp, vals[0], opt)
        return cutting_plane_optim(omega=om, space=sp, gamma=vals[0], options=opt)

    if fault:
        T.expect_fault(case, sc, call)
        case.signature("fault", cause, sc.fault_at, type(sc.fault).__name__)
        return
    x, g, it = case.sut(call)
    case.hit("stop:" + cause)
    case.check(not isinstance(it, bool) and it == stop, "wrong iteration count", got=it, expected=stop, cause=cause)
    case.check(g == cur["gamma"], "the value returned is not the last one the oracle certified", got=g, expected=cur["gamma"])
    if cur["best"] is None:
        case.hit("never-improved")
        case.check(x is None, "a point was returned although none was certified", got=x)
    else:
        sp.buf[:] = 12345.0  # whatever the space does later
        case.check(
            x is not None and np.array_equal(np.asarray(x, float), cur["best"]),
            "the point returned is not the one certified with the returned value",
            got=x, expected=cur["best"],
        )
    case.signature(cause, stop, m, sum(improve[:stop]), oname, sp.in_place, default)
    case.show(cause=cause, stop=stop, limit=m, improvements=sum(improve[: stop + 1]), returned=[x, str(g), it])


def real(case):
    """Recorded runs on the real spaces: min of a convex quadratic over half-spaces."""
    r = case.rng
    cls = E.SPACES[str(r.choice(list(E.SPACES)))]
    n = int(r.integers(2, 7))
    mc = int(r.integers(0, 2 * n))
    A = r.normal(size=(mc, n))
    b = np.abs(r.normal(size=mc)) * float(r.choice([1.0, 0.1]))
    if mc and r.random() < 0.15:
        A = np.vstack([A, -A[:1]])
        b = np.append(b, -b[0] - 0.5)
    c = r.normal(size=n)
    off = float(r.choice([0.0, 3.0, -3.0]))
    # a floor makes the objective flat around its minimum; ties are then accepted
    floor = off - float(r.choice([0.0, 0.3, 1.0])) if r.random() < 0.4 else -np.inf
    start = floor if floor > -np.inf and r.random() < 0.3 else 1e6
    hist = []

    class Om:
        def assess_optim(self, x, gamma):
            guard.tick()
            x = np.array(x, dtype=float)
            case.check(np.array_equal(x, np.asarray(space.xc(), float)), "not asked about the current center")
            best = [h for h in hist if h["val"] is not None]
            want = best[-1]["val"] if best else start
            case.check(gamma == want, "the oracle was not given the best value so far", got=gamma, best=want)
            h = {"x": x, "val": None, "cut": None}
            hist.append(h)
            v = A @ x - b if len(b) else np.array([-1.0])
            k = int(np.argmax(v))
            if v[k] > 0:
                h["cut"] = (A[k].copy(), float(v[k]))
                return h["cut"], None
            f = max(float(c @ x + 0.1 * x @ x + off), floor)
            g = c + 0.2 * x
            if not g.any():
                g = c
            if f > gamma or (f == gamma and floor == -np.inf):
                h["cut"] = (g, f - gamma)
                return h["cut"], None
            h["val"] = f
            h["cut"] = (g, 0.0)
            return h["cut"], f

    class Rec(cls):
        BASE = cls

        def _rec(self, name, cut):
            h = hist[-1]
            case.check(T.same_cut(h["cut"], cut), "cut altered on its way")
            case.check(
                name == ("update_central_cut" if h["val"] is not None else "update_bias_cut"),
                "wrong kind of cut applied", applied=name, improved=h["val"] is not None,
            )
            st = getattr(super(), name)(cut)
            h["st"], h["tsq"] = st, float(self.tsq())
            return st

        def update_bias_cut(self, cut):
            return self._rec("update_bias_cut", cut)

        def update_central_cut(self, cut):
            return self._rec("update_central_cut", cut)

        def update_q(self, cut):
            raise Violation("optimizer applied a discrete cut")

    space = Rec(float(10.0 ** r.uniform(0, 2)), np.zeros(n))
    opt = Options()
    opt.max_iters = int(r.choice([3, 30, 400]))
    opt.tolerance = float(r.choice([1e-20, 1e-8, 1e-2]))
    guard = E.Guard(case, space)
    try:
        x, g, it = case.sut(cutting_plane_optim, Om(), space, start, opt, allow=(E.OutOfRange,))
    except E.OutOfRange:
        return
    case.hit("real")
    best = [h for h in hist if h["val"] is not None]
    case.check(g == (best[-1]["val"] if best else start), "value returned is not the best certified", got=g)
    if best:
        case.check(np.array_equal(x, best[-1]["x"]), "point returned is not the best certified", got=x, best=best[-1]["x"])
        case.check(g == min(h["val"] for h in best), "a better certified value was dropped")
    else:
        case.check(x is None, "a point was returned although none was certified")
    last = hist[-1]
    stopped = last["st"] != CutStatus.Success or last["tsq"] < opt.tolerance
    case.check(stopped or len(hist) == opt.max_iters, "stopped without a reason")
    case.check(it == (len(hist) - 1 if stopped else opt.max_iters), "wrong iteration count", got=it, cuts=len(hist))
    case.check(
        all(h["st"] == CutStatus.Success and not h["tsq"] < opt.tolerance for h in hist[:-1]), "went on past a stop"
    )
    case.signature("real", cls.__name__, n, len(best), it // 4)


def lengthy(case):
    scripted(case, True)


FAMILIES = {
    "lengthy": (lengthy, 120, 800),
    "scripted": (scripted, 16000, 90000),
    "real": (real, 800, 6000),
}
