"""C18: the profit oracles tell the truth about profit, limit and uncertainty."""

import math

import numpy as np

from ellalgo.cutting_plane import cutting_plane_optim
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
from ellalgo.ell_stable import EllStable
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle
from vlib import profit as P

PROPERTY = "C18"
VOLUME = 2
ANCHORS = ["oracles/profit_oracle.py"]
UNREACHED_OK = ()
RULE = (
    "random production functions, prices, limits and uncertainties; query points around the "
    "optimum, the limit and the sign changes, in sequences through one oracle; cuts judged by the "
    "extreme point of the exact better-plan region; distinct = (variant, verdict, region, level, depth)"
)
REQUIRED = {
    "rejected:limit": 300, "rejected:profit": 500, "improved": 500, "cut-judged": 1500, "robust": 500,
    "solver-run": 50, "level-below-zero": 200, "near-repeat": 300, "wide-uncertainty": 200, "quadrant:--": 30, "quadrant:++": 30, "quadrant:+-": 30, "quadrant:-+": 30,
}
ASSUMPTIONS = ["cuts are judged for non-negative profit levels (below zero the logarithmic form is not convex), verdicts for every level above minus the cost"]


def draw_x(case, m, opt, gamma):
    r = case.rng
    u = r.random()
    if u < 0.25:
        return opt + r.normal(size=2) * 10.0 ** float(r.uniform(-3, 0.3))
    if u < 0.45:  # near the limit
        x = opt + r.normal(size=2) * 0.5
        x[0] = m.logk + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-5, 0))
        return x
    if u < 0.7:  # around the sign changes
        return r.normal(size=2) * 10.0 ** float(r.uniform(-2, 0.5))
    if u < 0.85:  # next to the boundary of the level set
        d = r.normal(size=2)
        d /= np.linalg.norm(d)
        lo, hi = 0.0, 40.0
        if m.slack(opt, gamma)[0] < 0:
            return opt + d
        for _ in range(45):
            mid = (lo + hi) / 2
            if m.slack(opt + mid * d, gamma)[0] >= 0:
                lo = mid
            else:
                hi = mid
        return opt + (lo + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-4, -1))) * d
    return r.uniform(-6, 8, 2)


def judge_valid(case, m, g, beta, x, gamma, opt, popt, wit):
    if gamma >= popt * (1 - 1e-6):
        case.hit("no-better-plan")
        return
    hi, where = m.extreme(g, gamma, opt)
    lhs = hi - float(g @ x) + beta
    s = float(np.abs(g) @ (np.abs(x) + np.abs(where))) + abs(beta) + 1e-12
    case.hit("cut-judged")
    case.check(lhs <= 1e-7 * s, "the cut removes a plan that is feasible and at least as good", plan=where, excess=lhs, **wit)


def sequences(case):
    r = case.rng
    p, A, k, a, v = P.draw(case)
    robust = bool(r.random() < 0.5)
    if robust:
        e = [float(t) for t in (r.uniform(0, 0.05), r.uniform(0, 0.05), r.uniform(0, 0.3) * p, r.uniform(0, 0.3) * k, r.uniform(0, 2) * min(1.0, v.min()))]
        a = np.minimum(a, 0.45)
        if r.random() < 0.3:  # wide uncertainty in one respect
            i = int(r.integers(5))
            e[i] = float([r.uniform(0, 1) * min(0.9 * a[0], 0.48 - a[0]), r.uniform(0, 1) * min(0.9 * a[1], 0.48 - a[1]), r.uniform(0.3, 0.8) * p, r.uniform(0.3, 0.95) * k, r.uniform(2, 50) * min(1.0, v.min())][i])
            case.hit("wide-uncertainty")
        if r.random() < 0.2:
            e[int(r.integers(5))] = 0.0
        if r.random() < 0.08:  # an elasticity of uncertain sign
            i = int(r.integers(2))
            a[i] = float(r.uniform(0.02, 0.15))
            e[i] = a[i] * float(r.uniform(1.05, 1.8))
            case.hit("uncertain-sign")
        P.decoys(case, ProfitRbOracle, ((p, A, k), a.copy(), v.copy(), tuple(e)))
        om = case.sut(ProfitRbOracle, (p, A, k), a.copy(), v.copy(), tuple(e))
        m = P.Model(p - e[2], A, k - e[3], a, v + e[4], (e[0], e[1]))
    else:
        e = None
        P.decoys(case, ProfitOracle, ((p, A, k), a.copy(), v.copy()))
        om = case.sut(ProfitOracle, (p, A, k), a.copy(), v.copy())
        m = P.Model(p, A, k, a, v)
    opt, popt = m.best()
    case.show(price=p, scale=A, limit=k, elasticities=a, costs=v, uncertainty=e, optimum=opt, profit=popt)
    case.prelude(lambda i: case.sut(om.assess_optim, opt + 0.5 * r.normal(size=2), max(popt, 0.0) * float(r.uniform(0, 1))), 0.06)
    for depth in range(int(r.integers(2, 8))):
        gamma = float(r.choice([0.0, popt * r.uniform(0, 1), popt * (1 - 10.0 ** r.uniform(-5, -1)), popt * 1.2]))
        gamma = max(gamma, 0.0)
        x = draw_x(case, m, opt, gamma)
        if depth and r.random() < 0.2:  # hardly moved, or the same plan at another level
            x = last + r.normal(size=2) * 10.0 ** float(r.uniform(-9, -5)) * float(r.random() < 0.7)
            if r.random() < 0.5:
                p0 = m.profit(x)
                gamma = max(0.0, p0 * (1 + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-6, -3))))
            case.hit("near-repeat")
        last = x.copy()
        low = bool(r.random() < 0.12)
        if low:  # a level below zero (nothing profitable known yet): only the verdict is judged
            p0 = m.profit(x)
            gamma = -float(m.cost(x)[0]) * float(r.uniform(0.0, 0.95)) if r.random() < 0.4 or p0 >= 0 else p0 * (1 + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-4, -0.5)))
            gamma = max(gamma, -0.98 * float(m.cost(x)[0]))
            case.hit("level-below-zero")
        x = case.reuse("x", x)
        x0 = x.copy()
        s = float(m.slack(x, gamma)[0])
        feas_only = not robust and bool(r.random() < 0.3)
        wit = dict(price=p, scale=A, limit=k, elasticities=a, costs=v, uncertainty=e, x=x0, level=gamma, depth=depth)
        if feas_only:
            cut, new = case.sut(om.assess_feas, x, gamma), None
            ok = cut is None
        else:
            cut, new = case.sut(om.assess_optim, x, gamma)
            ok = new is not None
        case.check(np.array_equal(x, x0), "the query point was modified", **wit)
        wit["answer"] = [cut, new]
        if abs(s) < 1e-9 * (1 + float(np.abs(x).sum()) + abs(m.logpA)):
            case.hit("too-close-to-call")
            continue
        case.check(ok == (s > 0), "wrong verdict on limit and profit level", slack=s, **wit)
        if robust:
            case.hit("robust")
            case.hit("quadrant:" + "".join("+" if t > 0 else "-" for t in x))
        if not ok:
            case.hit("rejected:limit" if x[0] > m.logk else "rejected:profit")
        if cut is not None:
            g, beta = np.array(cut[0], dtype=float), float(cut[1])
            case.check(g.shape == (2,) and bool(np.all(np.isfinite(g))) and math.isfinite(beta), "malformed cut", **wit)
            if not ok:
                case.check(beta > 0, "the cut does not cut the rejected plan off", **wit)
            lev = gamma
            if ok:
                true = m.profit(x)
                size = float(np.exp(m.logrev(x))[0] + m.cost(x)[0])
                case.hit("improved")
                case.check(abs(float(new) - true) <= 1e-9 * size, "the reported profit is not the profit of the plan", true=true, **wit)
                lev = true
                # the central cut may not be kept at the very optimum (gradient vanishes)
                if not np.any(g != 0) or float(np.abs(g).max()) < 1e-9:
                    continue
            if lev >= 0.0:
                judge_valid(case, m, g, beta, x, lev, opt, popt, wit)
        case.signature(robust, ok, x[0] > m.logk, tuple(x > 0), gamma == 0.0, gamma > popt, depth, feas_only)


def solver(case):
    """Whole runs find the optimal plan of the (worst-case) model."""
    r = case.rng
    p, A, k, a, v = P.draw(case)
    robust = bool(r.random() < 0.4)
    if robust:
        e = [float(t) for t in (r.uniform(0, 0.03), r.uniform(0, 0.03), r.uniform(0, 0.2) * p, r.uniform(0, 0.2) * k, r.uniform(0, 1) * min(1.0, v.min()))]
        a = np.minimum(a, 0.42)
        P.decoys(case, ProfitRbOracle, ((p, A, k), a.copy(), v.copy(), tuple(e)))
        om = case.sut(ProfitRbOracle, (p, A, k), a.copy(), v.copy(), tuple(e))
        m = P.Model(p - e[2], A, k - e[3], a, v + e[4], (e[0], e[1]))
    else:
        e = None
        P.decoys(case, ProfitOracle, ((p, A, k), a.copy(), v.copy()))
        om = case.sut(ProfitOracle, (p, A, k), a.copy(), v.copy())
        m = P.Model(p, A, k, a, v)
    opt, popt = m.best()
    c = opt + r.normal(size=2)
    R = float(np.linalg.norm(c - opt)) * 1.5 + 1.0
    cls = Ell if r.random() < 0.5 else EllStable
    space = cls(R * R if r.random() < 0.5 else np.array([R * R, R * R * 1.5]), c.copy())
    opts = Options()
    opts.tolerance = 1e-15
    x, g, num = case.sut(cutting_plane_optim, om, space, 0.0, opts)
    wit = dict(price=p, scale=A, limit=k, elasticities=a, costs=v, uncertainty=e, start=c, R=R, x=x, profit=g, optimum=popt, at=opt, iterations=num)
    case.hit("solver-run")
    case.check(x is not None, "no plan found although a profitable one exists", **wit)
    size = float(np.exp(m.logrev(opt))[0])
    case.check(abs(m.profit(x) - float(g)) <= 1e-9 * size and x[0] <= m.logk + 1e-9, "the plan does not earn the profit reported", **wit)
    case.check(float(g) <= popt + 1e-6 * size, "profit above the optimum", **wit)
    case.check(float(g) >= popt - 1e-4 * size, "the run stopped short of the optimum", **wit)
    case.signature("run", robust, cls.__name__, num // 20, bool(opt[0] >= m.logk - 1e-9))


FAMILIES = {
    "sequences": (sequences, 2500, 25000),
    "solver": (solver, 500, 5000),
}
