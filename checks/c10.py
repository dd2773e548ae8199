"""C10: the optimizer converges to the true optimum at the guaranteed rate."""

import math

import numpy as np

from ellalgo.cutting_plane import cutting_plane_optim
from ellalgo.ell_config import Options
from vlib import ellipsoid as E

PROPERTY = "C10"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py", "cutting_plane.py"]
UNREACHED_OK = ("_update_core", "calc_parallel", "calc_bias_cut", "calc_single_or_parallel_q", "calc_single_or_parallel",
                "cutting_plane_feas", "calc_single_or_parallel_central_cut", "cutting_plane_optim")
RULE = (
    "convex programs with a planted KKT optimum and a known inner ball, plus the bundled oracles "
    "against closed forms and linear programming; the gap is checked after every iteration; "
    "distinct = (problem kind, dim, space, constraints, gap decade, stop)"
)
REQUIRED = {"planted": 300, "plateau": 300, "anytime": 20000, "ended-by-size": 100, "profit": 80, "robust": 40, "lowpass": 4, "cone": 40}


def planted(case):
    r = case.rng
    n = int(r.choice([2, 2, 3, 4, 5, 6, 8], p=[0.2, 0.15, 0.2, 0.15, 0.15, 0.1, 0.05]))
    cls = str(r.choice(list(E.SPACES)))
    R = 10.0 ** float(r.choice([0, 0, 1, -1, 3]))
    x0 = R * r.normal(size=n) * float(r.choice([0.0, 1.0, 4.0]))
    rin = R * 10.0 ** float(r.uniform(-1.2, -0.5))
    u = r.normal(size=n)
    u /= np.linalg.norm(u)
    z = x0 + u * (R - rin) * float(r.uniform(0, 0.95))
    # optimum somewhere in the initial ball, at least rin away from z
    for _ in range(200):
        d = r.normal(size=n)
        d /= np.linalg.norm(d)
        xs = x0 + d * R * float(r.uniform(0, 0.999))
        if np.linalg.norm(xs - z) > 1.3 * rin:
            break
    else:
        return
    dz = xs - z
    dist = float(np.linalg.norm(dz))
    active, lam = [], []
    want = int(r.integers(0, n + 1))
    for _ in range(400):
        if len(active) >= want:
            break
        a = r.normal(size=n) + (dz / dist) * 2.0
        a /= np.linalg.norm(a)
        if a @ dz >= 1.01 * rin:
            active.append(a)
            lam.append(float(10.0 ** r.uniform(-1, 0.5)))
    rows, rhs = list(active), [float(a @ xs) for a in active]
    for _ in range(int(r.integers(0, 3 * n))):  # inactive ones
        a = r.normal(size=n)
        a /= np.linalg.norm(a)
        rows.append(a)
        rhs.append(max(float(a @ xs), float(a @ z) + rin) + R * 10.0 ** float(r.uniform(-3, 0)))
    A = np.array(rows).reshape(-1, n)
    b = np.array(rhs)
    push = sum((l * a for l, a in zip(lam, active)), np.zeros(n))
    kind = str(r.choice(["linear", "quad", "norm"])) if active else str(r.choice(["quad", "norm"]))
    if kind == "linear":
        c = -push
        off = float(r.normal()) * 3

        def f(x):
            return float(c @ x) + off

        def grad(x):
            return c.copy()

        fz = f(z) + rin * float(np.linalg.norm(c))
    elif kind == "quad":
        B = r.normal(size=(n, n))
        Q = B.T @ B / n + 0.1 * np.eye(n)
        Q /= R
        c = -push - Q @ xs
        off = float(r.normal())

        def f(x):
            return float(0.5 * x @ Q @ x + c @ x) + off

        def grad(x):
            return Q @ x + c

        gz = float(np.linalg.norm(Q @ z + c)) + rin * float(np.linalg.norm(Q, 2))
        fz = f(z) + rin * gz
    else:
        # sum of a norm centred at xs and a push: minimised at xs over A x <= b
        def f(x):
            return float(np.linalg.norm(x - xs)) - float(push @ (x - xs))

        def grad(x):
            e = x - xs
            s = float(np.linalg.norm(e))
            return (e / s if s > 0 else np.zeros(n)) - push

        fz = f(z) + rin * (1 + float(np.linalg.norm(push)))
    fs = f(xs)
    rng_f = max(fz - fs, 0.0)
    order = str(r.choice(["worst", "first", "robin"]))
    pair = kind == "linear" and r.random() < 0.4
    lb = fs - R * 10.0 ** float(r.uniform(-3, 0))
    st = {"k": 0, "rr": 0, "best": math.inf}
    gap_scale = max(abs(fs), abs(fz), rng_f)

    class Om:
        def assess_optim(self, x, gamma):
            guard.tick()
            # anytime guarantee, before this cut
            k = st["k"]
            st["k"] += 1
            theta = R / rin * math.exp(-k / (2.0 * n * (n + 1)))
            if theta < 1.0:
                case.hit("anytime")
                case.check(
                    st["best"] - fs <= rng_f * theta * (1 + 1e-6) + 1e-9 * gap_scale,
                    "slower than the guaranteed rate",
                    iteration=k, gap=st["best"] - fs, allowed=rng_f * theta, kind=kind, n=n, space=cls,
                )
            x = np.array(x, dtype=float)
            if len(b):
                v = A @ x - b
                idx = np.flatnonzero(v > 0)
                if len(idx):
                    if order == "worst":
                        i = int(np.argmax(v))
                    elif order == "first":
                        i = int(idx[0])
                    else:
                        st["rr"] += 1
                        i = int(idx[st["rr"] % len(idx)])
                    return (A[i].copy(), float(v[i])), None
            val = f(x)
            g = grad(x)
            s = float(np.linalg.norm(g))
            if s == 0.0:
                g, s = np.ones(n), math.sqrt(n)
            if val >= gamma:
                if pair and val - lb > val - gamma:
                    return (g / s, ((val - gamma) / s, (val - lb) / s)), None
                return (g / s, (val - gamma) / s), None
            st["best"] = val
            if pair and val > lb:
                return (g / s, (0.0, (val - lb) / s)), val
            return (g / s, 0.0), val

    sp = case.sut(E.SPACES[cls], float(R * R), x0.copy())
    if r.random() < 0.15:
        sp.no_defer_trick = True
    guard = E.Guard(case, sp)
    opt = Options()
    opt.tolerance = (R * 10.0 ** float(r.choice([-2, -4, -6]))) ** 2
    opt.max_iters = int(r.choice([3000, 3000, 60]))
    gamma0 = float(r.choice([math.inf, 1e12, fs + 2 * abs(rng_f) + 1.0]))
    case.hit("planted")
    try:
        x, g, it = case.sut(cutting_plane_optim, Om(), sp, gamma0, opt, allow=(E.OutOfRange,))
    except E.OutOfRange:
        return
    wit = dict(kind=kind, n=n, space=cls, active=len(active), iterations=it, tol=opt.tolerance, optimum=fs, got=g, inner=rin / R)
    ended = it < opt.max_iters
    if ended:
        case.check(x is not None, "stopped on its own without any feasible point", **wit)
    if x is not None:
        x = np.asarray(x, float)
        case.check(f(x) == g, "value returned is not the value of the point returned", x=x, f=f(x), **wit)
        case.check(not len(b) or bool(np.all(A @ x <= b)), "point returned is infeasible", x=x, **wit)
        case.check(g >= fs - 1e-9 * gap_scale, "value returned is better than the optimum", **wit)
        if ended:
            case.hit("ended-by-size")
            theta = 1.05 * math.sqrt(opt.tolerance) / rin
            case.check(
                g - fs <= rng_f * max(theta, 1e-7) + 1e-8 * gap_scale, "stopped before reaching the optimum to tolerance",
                allowed=rng_f * theta, gap=g - fs, **wit,
            )
        gapdec = int(math.log10(max(g - fs, 1e-16) / (gap_scale + 1e-300)))
    else:
        gapdec = None
    case.signature(kind, n, cls, len(active), len(b), gapdec, ended)
    case.show(**wit)


def plateau(case):
    """An objective that is flat over a ball around its minimum; ties count as
    improvements, and the search may start from the optimal value itself."""
    r = case.rng
    n = int(r.integers(2, 6))
    cls = str(r.choice(list(E.SPACES)))
    R = 10.0 ** float(r.choice([0, 1, -2]))
    x0 = R * r.normal(size=n)
    rho = R * 10.0 ** float(r.uniform(-1.2, -0.3))
    u = r.normal(size=n)
    c = x0 + u / np.linalg.norm(u) * (R - rho) * float(r.uniform(0, 1))
    level = float(r.choice([0.0, 1.0, -2.0])) * R
    seen = []

    class Om:
        def assess_optim(self, x, gamma):
            d = np.asarray(x, float) - c
            s = float(np.linalg.norm(d))
            v = max(s - rho, 0.0) + level
            g = d / s if s > 0 else np.eye(n)[0]
            if v > gamma:
                return (g, v - gamma), None
            seen.append((np.array(x, dtype=float), v))
            return (g, 0.0), v

    gamma0 = float(r.choice([level, level, level + 0.1 * R, math.inf]))
    sp = case.sut(E.SPACES[cls], float(R * R), x0.copy())
    opt = Options()
    opt.max_iters = math.ceil(2.0 * n * (n + 1) * math.log(R / rho)) + int(r.integers(1, 8))
    x, g, it = case.sut(cutting_plane_optim, Om(), sp, gamma0, opt)
    wit = dict(n=n, space=cls, start=gamma0, optimum=level, got=g, x=x, iterations=it, limit=opt.max_iters, accepted=len(seen))
    # the flat part is a ball of radius rho: a center outside it is cut off without losing it
    case.check(x is not None, "no point although the best value is attained on a ball inside the set", **wit)
    x = np.asarray(x, float)
    case.check(g == level, "not the optimum", **wit)
    case.check(float(np.linalg.norm(x - c)) <= rho * (1 + 1e-12), "value returned is not the value of the point returned", **wit)
    case.check(bool(seen) and np.array_equal(seen[-1][0], x), "the point returned is not the last one accepted", **wit)
    case.hit("plateau")
    case.signature("plateau", n, cls, gamma0 == level, it // 5)


def profit(case):
    from ellalgo.oracles.profit_oracle import ProfitOracle

    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    a = r.uniform(0.05, 0.6, 2)
    if a.sum() > 0.9:
        a *= 0.9 / a.sum()
    v = 10.0 ** r.uniform(-0.5, 1.5, 2)
    p, scale = float(r.uniform(5, 50)), float(r.uniform(5, 60))
    k = float(r.uniform(2, 60))

    def val(y):
        return p * scale * math.exp(float(a @ y)) - float(v @ np.exp(y))

    # closed form: first-order conditions, else on the bound
    M = np.eye(2) - np.array([a, a])
    y = np.linalg.solve(M, np.log(a * p * scale / v))
    if y[0] > math.log(k):
        y0 = math.log(k)
        y = np.array([y0, (math.log(a[1] * p * scale / v[1]) + a[0] * y0) / (1 - a[1])])
    best = val(y)
    if best <= 1e-3 or float(np.abs(y).max()) > 8.0:
        return
    om = case.sut(ProfitOracle, (p, scale, k), a.copy(), v.copy())
    sp = case.sut(E.SPACES[cls], float(r.choice([100.0, 225.0])), np.array([0.0, 0.0]))
    opt = Options()
    opt.tolerance = 1e-20
    x, g, it = case.sut(cutting_plane_optim, om, sp, 0.0, opt)
    case.hit("profit")
    wit = dict(params=[p, scale, k], elasticities=a, prices=v, optimum=best, at=y, got=g, x=x, iterations=it)
    case.check(x is not None, "no plan found although a profitable one exists", **wit)
    case.check(x[0] <= math.log(k) + 1e-12, "plan exceeds the supply limit", **wit)
    case.check(abs(val(np.asarray(x, float)) - g) <= 1e-9 * (abs(g) + p * scale), "value is not the plan's profit", **wit)
    case.check(abs(g - best) <= 1e-6 * max(best, 1.0), "not the most profitable plan", **wit)
    case.signature("profit", cls, y[0] > math.log(k) - 1e-9, it // 5)


def robust(case):
    from scipy.optimize import minimize_scalar

    from ellalgo.oracles.profit_oracle import ProfitRbOracle

    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    a = r.uniform(0.1, 0.45, 2)
    v = 10.0 ** r.uniform(0.5, 1.5, 2)
    p, scale, k = float(r.uniform(10, 40)), float(r.uniform(20, 60)), float(r.uniform(5, 60))
    e = (float(r.uniform(0, 0.02)), float(r.uniform(0, 0.02)), float(r.uniform(0, 2)), float(r.uniform(0, 2)), float(r.uniform(0, 1)))

    def worst(y):
        aa = [a[i] - e[i] if y[i] > 0 else a[i] + e[i] for i in range(2)]
        return (p - e[2]) * scale * math.exp(aa[0] * y[0] + aa[1] * y[1]) - float((v + e[4]) @ np.exp(y))

    def inner(y0):
        s = minimize_scalar(lambda t: -worst((y0, t)), bounds=(-3, 12), method="bounded", options={"xatol": 1e-10})
        return s.fun

    top = math.log(k - e[3])
    s = minimize_scalar(inner, bounds=(-3, top), method="bounded", options={"xatol": 1e-9})
    best = -min(s.fun, inner(top))
    if best < 1.0:
        return
    om = case.sut(ProfitRbOracle, (p, scale, k), a.copy(), v.copy(), e)
    sp = case.sut(E.SPACES[cls], 100.0, np.array([0.0, 0.0]))
    x, g, it = case.sut(cutting_plane_optim, om, sp, 0.0, Options())
    case.hit("robust")
    wit = dict(params=[p, scale, k], elasticities=a, prices=v, uncertainty=e, optimum=best, got=g, x=x, iterations=it)
    case.check(x is not None, "no plan found although a profitable one exists", **wit)
    case.check(x[0] <= top + 1e-12, "plan exceeds the worst-case supply limit", **wit)
    case.check(abs(worst(x) - g) <= 1e-9 * (abs(g) + p * scale), "value is not the plan's worst-case profit", **wit)
    case.check(abs(g - best) <= 2e-6 * max(best, 1.0), "not the most profitable plan in the worst case", **wit)
    case.signature("robust", cls, it // 5)


def cone(case):
    """Linear objective over the unit ball written as a matrix inequality."""
    from ellalgo.oracles.lmi_oracle import LMIOracle

    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    n = int(r.integers(2, 5))
    c = r.normal(size=n)
    rho = 10.0 ** float(r.uniform(-1, 1))
    ctr = r.normal(size=n) * rho
    F = []
    for i in range(n):
        M = np.zeros((n + 1, n + 1))
        M[i, n] = M[n, i] = -1.0
        F.append(M)
    B = rho * np.eye(n + 1)
    for i in range(n):
        B[i, n] = B[n, i] = -ctr[i]
    lmi = LMIOracle(F, B)  # B - sum F_k x_k = [[rho I, x-ctr], [., rho]] >= 0

    class Om:
        def assess_optim(self, x, gamma):
            cut = lmi.assess_feas(x)
            if cut is not None:
                return cut, None
            v = float(c @ x)
            if v >= gamma:
                return (c.copy(), v - gamma), None
            return (c.copy(), 0.0), v

    best = float(c @ ctr) - rho * float(np.linalg.norm(c))
    sp = case.sut(E.SPACES[cls], float((4 * rho) ** 2 * n), np.zeros(n))
    opt = Options()
    opt.tolerance = 1e-14
    x, g, it = case.sut(cutting_plane_optim, Om(), sp, 1e9, opt)
    case.hit("cone")
    wit = dict(n=n, space=cls, optimum=best, got=g, iterations=it)
    case.check(x is not None, "no feasible point found", **wit)
    case.check(abs(g - best) <= 1e-4 * rho * float(np.linalg.norm(c)), "not the optimum", **wit)
    case.check(float(np.linalg.norm(x - ctr)) <= rho * (1 + 1e-9), "point returned is infeasible", x=x, **wit)
    case.signature("cone", cls, n, it // 10)


def lowpass(case):
    from scipy.optimize import linprog

    from ellalgo.oracles.lowpass_oracle import LowpassOracle

    r = case.rng
    cls = str(r.choice(["Ell", "EllStable"], p=[0.75, 0.25]))
    N = int(r.integers(5, 11))
    wp, ws = float(r.uniform(0.1, 0.25)), float(r.uniform(0.35, 0.5))
    d = float(r.uniform(0.1, 0.3))
    lp, up = (1 - d) ** 2, (1 + d) ** 2
    m = 15 * N
    w = np.linspace(0, np.pi, m)
    S = np.hstack([np.ones((m, 1)), 2 * np.cos(np.outer(w, np.arange(1, N)))])
    ip, is_ = math.floor(wp * (m - 1)) + 1, math.floor(ws * (m - 1)) + 1
    # minimise t: lp <= S x <= up on the pass band, 0 <= S x <= t on the stop band, S x >= 0
    Z = np.zeros
    Au = np.vstack([
        np.hstack([S[:ip], Z((ip, 1))]), np.hstack([-S[:ip], Z((ip, 1))]),
        np.hstack([S[is_:], -np.ones((m - is_, 1))]), np.hstack([-S[is_:], Z((m - is_, 1))]),
        np.hstack([-S[ip:is_], Z((is_ - ip, 1))]),
        np.hstack([-np.eye(1, N), Z((1, 1))]),
    ])
    bu = np.concatenate([np.full(ip, up), np.full(ip, -lp), Z(m - is_), Z(m - is_), Z(is_ - ip), Z(1)])
    s = linprog(np.append(Z(N), 1.0), Au, bu, bounds=[(None, None)] * N + [(0, None)], method="highs")
    if s.status != 0:
        return
    # fmax is the largest stop-band value, so the comparison is a little above t*
    best = s.fun
    om = case.sut(LowpassOracle, N, wp, ws, lp, up, 1.0)
    sp = case.sut(E.SPACES[cls], 40.0, np.zeros(N))
    opt = Options()
    opt.max_iters, opt.tolerance = 20000, 1e-14
    x, g, it = case.sut(cutting_plane_optim, om, sp, 1.0, opt)
    case.hit("lowpass")
    wit = dict(N=N, bands=[wp, ws], ripple=d, optimum=best, got=g, iterations=it, space=cls)
    case.check(x is not None, "no filter found although one exists", **wit)
    v = S @ np.asarray(x, float)
    ok = v[:ip].min() >= lp - 1e-9 and v[:ip].max() <= up + 1e-9 and v.min() >= -1e-9
    case.check(bool(ok), "filter returned violates its specification", x=x, **wit)
    case.check(abs(float(v[is_:].max()) - g) <= 1e-9, "value is not the largest stop-band response", **wit)
    case.check(best - 1e-7 <= g <= best + 1e-3, "not the best stop-band attenuation", **wit)
    case.signature("lowpass", cls, N, it // 100)


FAMILIES = {
    "planted": (planted, 5000, 30000),
    "plateau": (plateau, 500, 4000),
    "profit": (profit, 500, 4000),
    "robust": (robust, 200, 1500),
    "cone": (cone, 300, 2500),
    "lowpass": (lowpass, 24, 160),
}
