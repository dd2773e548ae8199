"""C19: the discrete profit oracle offers only whole, feasible plans at their true profit."""

import math

import numpy as np

from ellalgo.cutting_plane import cutting_plane_optim_q
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
from ellalgo.ell_stable import EllStable
from ellalgo.oracles.profit_oracle import ProfitQOracle
from vlib import profit as P

PROPERTY = "C19"
VOLUME = 2
ANCHORS = ["oracles/profit_oracle.py"]
UNREACHED_OK = ()
RULE = (
    "random production models; query centers inside and outside the level set, small and large "
    "plans, retry calls, sequences through one oracle, whole discrete runs against enumeration; "
    "distinct = (branch, plan size, rounded feasible, retry, depth)"
)
REQUIRED = {
    "continuous-cut": 300, "rounded-better": 300, "rounded-worse": 300, "rounded-over-limit": 50,
    "retry": 300, "cut-judged": 800, "run": 60, "run:plan": 30, "became-one": 20,
}
ASSUMPTIONS = [
    "centers whose exponential is within 1e-6 of a half-integer are not judged for nearest rounding",
    "the offset of cuts taken at the rounded point is subject to the recorded known finding: an "
    "invalid cut is tolerated only when its offset is exactly the mirrored one",
]


def true_cuts(m, xd, gamma):
    """Analytic cuts available at the rounded point: (gradient, offset at that point)."""
    rev, cost = float(m.logrev(xd)[0]), float(m.cost(xd)[0])
    q = m.v * np.exp(xd)
    a = m.corners[0]
    out = [(np.array([1.0, 0.0]), xd[0] - m.logk)]
    if gamma + cost > 0:
        out.append((q / (gamma + cost) - a, math.log(gamma + cost) - rev))
    out.append((q / math.exp(rev) - a, 0.0))
    return out


def mirrored(m, g, beta, xc, xd, gamma):
    for h, b in true_cuts(m, xd, gamma):
        if np.allclose(g, h, rtol=1e-9, atol=1e-12):
            want = b + float(h @ (xd - xc))
            if abs(beta - want) <= 1e-9 * (abs(b) + float(np.abs(h) @ (np.abs(xd) + np.abs(xc))) + 1e-12):
                return True
    return False


def judge_cut(case, m, g, beta, xc, lev, opt, popt, xd, gamma, rounded, wit):
    if lev >= popt * (1 - 1e-6):
        return
    hi, where = m.extreme(g, lev, opt)
    lhs = hi - float(g @ xc) + beta
    s = float(np.abs(g) @ (np.abs(xc) + np.abs(where))) + abs(beta) + 1e-12
    case.hit("cut-judged")
    if lhs <= 1e-7 * s:
        return
    if rounded and mirrored(m, g, beta, xc, xd, gamma):
        case.finding("rounded-point-cut-mirrored", "offset of the rounded point's cut has the wrong sign")
        case.hit("known-finding")
        return
    case.check(False, "the cut removes a plan that is feasible and better", plan=where, excess=lhs, **wit)


def draw_model(case):
    p, A, k, a, v = P.draw(case)
    return (p, A, k, a, v), P.Model(p, A, k, a, v)


def sequences(case):
    r = case.rng
    while True:
        raw, m = draw_model(case)
        opt, popt = m.best()
        if m.k >= 1.0 and np.all(np.exp(opt) < (400 if r.random() < 0.9 else 1e12)):
            break
    p, A, k, a, v = raw
    if r.random() < 0.5:
        k = float(max(1, round(k)))
    if case.index == 0:  # the recorded finding, reproduced on every run
        p, A, k, a, v = 20.0, 40.0, 30.5, np.array([0.1, 0.4]), np.array([10.0, 35.0])
    m = P.Model(p, A, k, a, v)
    opt, popt = m.best()
    P.decoys(case, ProfitQOracle, ((p, A, k), a.copy(), v.copy()))
    om = case.sut(ProfitQOracle, (p, A, k), a.copy(), v.copy())
    case.show(price=p, scale=A, limit=k, elasticities=a, costs=v, optimum=np.exp(opt), profit=popt)
    case.prelude(
        lambda i: case.sut(
            om.assess_optim_q, opt + 0.5 * r.normal(size=2), max(popt, 0.0) * float(r.uniform(0, 1)), bool(i and r.random() < 0.3)
        ),
        0.06,
    )
    last = None
    last_gamma = None
    for depth in range(int(r.integers(3, 9))):
        retry = last is not None and bool(r.random() < 0.4)
        if retry:  # same center (an ineffective cut leaves it), possibly a better level by now
            xc = last.copy()
            if r.random() < 0.25:  # or a center that has moved since: same plan, other offset
                xc = xc + r.normal(size=2) * 10.0 ** float(r.uniform(-2, 0))
                case.hit("retry-elsewhere")
            gamma = last_gamma if last_new is None else float(last_new)
            if r.random() < 0.3:  # or better than that, found elsewhere
                gamma += max(popt, 0.0) * float(r.uniform(0, 0.3))
                case.hit("retry-higher")
        else:
            gamma = float(r.choice([0.0, popt * r.uniform(0, 0.95), popt * (1 - 10.0 ** r.uniform(-3, -0.5))]))
            u = r.random()
            if u < 0.75:
                xc = opt + r.normal(size=2) * 10.0 ** float(r.uniform(-1.5, 0.2))
                if r.random() < 0.4:  # just below the limit: rounding may cross it
                    xc[0] = m.logk - 10.0 ** float(r.uniform(-4, -1))
            else:
                xc = r.uniform(-2, 6, 2)
            if case.index == 0 and depth == 0:
                xc, gamma = np.array([3.0, 2.0]), 0.0
        xc = case.reuse("x", xc)
        x0 = xc.copy()
        wit = dict(price=p, scale=A, limit=k, elasticities=a, costs=v, xc=x0, level=gamma, retry=retry, depth=depth)
        s = float(m.slack(xc, gamma)[0])
        tol = 1e-9 * (1 + float(np.abs(xc).sum()) + abs(m.logpA))
        (g, beta), xq, new, alt = case.sut(om.assess_optim_q, xc, gamma, retry)
        g, beta, xq = np.array(g, dtype=float), float(beta), np.array(xq, dtype=float)
        wit["answer"] = [g, beta, xq, new, alt]
        case.check(np.array_equal(xc, x0), "the query point was modified", **wit)
        case.check(bool(np.all(np.isfinite(g))) and g.shape == (2,) and math.isfinite(beta), "malformed cut", **wit)
        case.check(bool(alt) == (not retry), "wrong announcement of further alternatives", **wit)
        if not retry and s < -tol:
            case.hit("continuous-cut")
            case.check(new is None, "improvement claimed at a center that misses the level", **wit)
            case.check(beta > 0, "the cut does not cut the center off", **wit)
            judge_cut(case, m, g, beta, xc, gamma, opt, popt, xq, gamma, False, wit)
            last = None
            case.signature("cont", depth, x0[0] > m.logk)
            continue
        if not retry and s <= tol:
            last = None
            continue
        # a rounded plan was evaluated
        plan = np.exp(xq)
        near = np.rint(plan)
        case.check(
            bool(np.all(np.abs(plan - near) <= 1e-9 * near)) and bool(np.all(near >= 1)), "the plan offered is not whole and positive", plan=plan, **wit
        )
        e = np.exp(last if retry else xc)  # an alternative is about the plan offered before
        if np.all(np.abs(e - np.floor(e) - 0.5) > 1e-6):
            want = np.maximum(np.rint(e), 1.0)
            if np.any(np.rint(e) < 1):
                case.hit("became-one")
            case.check(bool(np.array_equal(near, want)), "the plan offered is not the nearest whole one", want=want, **wit)
        sd = float(m.slack(xq, gamma)[0])
        td = 1e-9 * (1 + float(np.abs(xq).sum()) + abs(m.logpA))
        if abs(sd) > td:
            case.check((new is not None) == (sd > 0), "wrong verdict on the rounded plan", slack=sd, plan=near, **wit)
        lev = gamma
        if new is not None:
            true = m.profit(np.log(near))
            size = float(np.exp(m.logrev(xq))[0] + m.cost(xq)[0])
            case.hit("rounded-better")
            case.check(abs(float(new) - true) <= 1e-9 * size, "the profit reported is not that of the plan offered", true=true, plan=near, **wit)
            case.check(near[0] <= k * (1 + 1e-12), "the plan offered exceeds the limit", plan=near, **wit)
            lev = max(gamma, true)
        else:
            case.hit("rounded-over-limit" if near[0] > k else "rounded-worse")
        if retry:
            case.hit("retry")
        if np.any(np.abs(g) > 1e-9):
            judge_cut(case, m, g, beta, xc, lev, opt, popt, xq, gamma, True, wit)
        last, last_gamma, last_new = xc.copy(), gamma, new
        if retry:
            last = None
        case.signature("round", int(min(near.max(), 50)) // 5, new is not None, retry, depth)


def runs(case):
    """Whole discrete runs: whatever comes back is a real plan with its real profit."""
    r = case.rng
    while True:
        raw, m = draw_model(case)
        opt, popt = m.best()
        if m.k >= 1.0 and np.all(np.exp(opt) < 150):
            break
    p, A, k, a, v = raw
    P.decoys(case, ProfitQOracle, ((p, A, k), a.copy(), v.copy()))
    om = case.sut(ProfitQOracle, (p, A, k), a.copy(), v.copy())
    cls = Ell if r.random() < 0.5 else EllStable
    c = r.normal(size=2) * 0.5 + (opt if r.random() < 0.5 else 0.0)
    R2 = float((np.linalg.norm(c - opt) * 1.3 + 1.0) ** 2)
    space = cls(R2, c.copy())
    opts = Options()
    opts.max_iters = int(r.choice([1, 5, 40, 400]))
    opts.tolerance = float(r.choice([1e-4, 1e-20]))
    x, g, num = case.sut(cutting_plane_optim_q, om, space, 0.0, opts)
    wit = dict(price=p, scale=A, limit=k, elasticities=a, costs=v, start=c, x=x, profit=g, iterations=num, space=cls.__name__)
    case.hit("run")
    if x is None:
        case.check(float(g) == 0.0, "a profit was reported without a plan", **wit)
        case.signature("run-none", cls.__name__, num // 10)
        return
    case.hit("run:plan")
    plan = np.exp(np.array(x, dtype=float))
    near = np.rint(plan)
    case.check(bool(np.all(np.abs(plan - near) <= 1e-9 * near)) and bool(np.all(near >= 1)), "the plan returned is not whole", plan=plan, **wit)
    case.check(near[0] <= k * (1 + 1e-12), "the plan returned exceeds the limit", plan=near, **wit)
    true = m.profit(np.log(near))
    size = float(np.exp(m.logrev(np.log(near)))[0] + m.cost(np.log(near))[0])
    case.check(abs(float(g) - true) <= 1e-9 * size, "the profit returned is not that of the plan", true=true, plan=near, **wit)
    lo = np.maximum(1, np.floor(np.exp(opt) / 20)).astype(int)
    hi = (np.ceil(np.exp(opt) * 4) + 5).astype(int)
    X, Y = np.meshgrid(np.arange(1, min(hi[0], int(k)) + 1), np.arange(1, hi[1] + 1))
    L = np.log(np.column_stack([X.ravel(), Y.ravel()]).astype(float))
    best = float((np.exp(m.logrev(L)) - m.cost(L)).max())
    case.check(true <= max(best, true if near[1] > hi[1] else best) + 1e-9 * size, "profit above the best whole plan", best=best, **wit)
    case.hit("run:gap<1%" if true >= best * 0.99 else "run:gap>=1%")
    case.signature("run", cls.__name__, num // 10, true >= best * 0.99)


FAMILIES = {
    "sequences": (sequences, 2000, 20000),
    "runs": (runs, 600, 6000),
}
