"""C17: the filter-design oracle enforces the whole specification, wherever it was left off."""

import math

import numpy as np
from scipy.optimize import linprog

from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
from ellalgo.ell_stable import EllStable
from ellalgo.oracles.lowpass_oracle import LowpassOracle, create_lowpass_case
from vlib.core import Inconclusive

PROPERTY = "C17"
VOLUME = 2
ANCHORS = ["oracles/lowpass_oracle.py"]
UNREACHED_OK = ("assess_feas",)  # the x[0] < 0 exit cannot be reached (mean of a non-negative response)
RULE = (
    "low-pass specifications with a planted strictly feasible design; query points that violate "
    "exactly one chosen grid constraint, random points, feasible points, in sequences through one "
    "oracle; verdicts against the full grid, cuts against linear programs over all designs that "
    "meet the specification; distinct = (mode, taps, band violated, index class, depth, verdict)"
)
REQUIRED = {
    "needle:pass-high": 150, "needle:pass-low": 150, "needle:stop-high": 150,
    "needle:stop-low": 80, "needle:transition": 80, "edge-needle": 100, "fine-needle": 100, "accepted": 300, "cut-judged": 1000,
    "improved": 300, "second-plane": 400, "solver-run": 30,
    "long-query": 400, "long-cut-judged": 100,
}
ASSUMPTIONS = [
    "band edges that fall exactly on a grid frequency and responses within 1e-11 of a limit are "
    "not judged (either side is acceptable)"
]


class Spec:
    def __init__(self, n, wp, ws, lp, up, sp):
        self.n, self.wp, self.ws, self.lp, self.up, self.sp = n, wp, ws, lp, up, sp
        m = 15 * n
        w = math.pi * np.arange(m) / (m - 1)
        self.A = np.hstack([np.ones((m, 1))] + [2 * np.cos(k * w)[:, None] for k in range(1, n)])
        idx = np.arange(m)
        self.ps = idx <= wp * (m - 1)
        self.st = idx > ws * (m - 1)
        self.tr = ~self.ps & ~self.st
        self.m = m

    def rows(self, sp=None):
        """G y <= h."""
        sp = self.sp if sp is None else sp
        A = self.A
        P, S, T = A[self.ps], A[self.st], A[self.tr]
        G = np.vstack([P, -P, S, -S, -T])
        h = np.concatenate([
            np.full(len(P), self.up), np.full(len(P), -self.lp), np.full(len(S), sp),
            np.zeros(len(S)), np.zeros(len(T)),
        ])
        k = np.concatenate([np.flatnonzero(self.ps)] * 2 + [np.flatnonzero(self.st)] * 2 + [np.flatnonzero(self.tr)])
        tag = ["pass-high"] * len(P) + ["pass-low"] * len(P) + ["stop-high"] * len(S) + ["stop-low"] * len(S) + ["transition"] * len(T)
        return G, h, k, tag


def edges_ok(n, wp, ws):
    m = 15 * n
    return all(abs(w * (m - 1) - round(w * (m - 1))) > 1e-3 for w in (wp, ws))


def draw_spec(case, taps=None):
    """(spec, strictly feasible design)."""
    r = case.rng
    for _ in range(50):
        n = taps or (int(r.integers(1, 9)) if r.random() < 0.85 else int(r.integers(9, 17)))
        wp = float(r.uniform(0.03, 0.7))
        ws = float(r.uniform(wp, 0.95)) if r.random() < 0.9 else wp
        if not edges_ok(n, wp, ws):
            continue
        h = r.normal(size=n) * r.choice([1.0, 0.3, 3.0])
        if r.random() < 0.5:
            h = np.abs(h)
        z = np.convolve(h, h[::-1])[n - 1:]
        z[0] += float(r.uniform(0.01, 0.5)) * z[0]
        if taps:
            z *= np.linspace(1.0, 0.0, n, endpoint=False)
        s = Spec(n, wp, ws, 0, 0, 0)
        v = s.A @ z
        if v.min() <= 1e-3 * v.max() or not s.st.any() or not s.ps.any():
            continue
        k = float(r.uniform(0.02, 0.6))
        s.lp = float(v[s.ps].min() * (1 - k)) if r.random() < 0.85 else 0.0
        s.up = float(v[s.ps].max() * (1 + k))
        s.sp = float(v[s.st].max() * (1 + k))
        return s, z
    raise Inconclusive("no specification")


def extreme(spec, g, sp, where=None):
    """max g.y over the designs that meet the specification (None: no design); the
    maximiser, a vertex known to solver accuracy, goes to the list where."""
    G, h, _, _ = spec.rows(sp)
    # solver tolerances are absolute: work in units of the pass-band level
    u = spec.up
    res = linprog(-g, A_ub=G, b_ub=h / u, bounds=[(None, None)] * spec.n, method="highs")
    if res.status == 2:
        return None
    if res.status == 3:
        return math.inf
    if res.status != 0:
        raise Inconclusive("linear program")
    if where is not None:
        where.append(np.array(res.x) * u)
    return float(-res.fun) * u


def admissible(spec, y, z, sp):
    """The vertex y, moved just so far towards the interior design z that it meets the
    specification beyond doubt (None: it cannot be settled)."""
    G, h, _, _ = spec.rows(sp)
    if not np.all(G @ z < h):
        return None
    for eps in (0.0, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8):
        w = y + eps * (z - y)
        if np.all(G @ w <= h):
            return w
    return None


def judge_cut(case, spec, cut, x, sp, deep, wit, z=None):
    g, beta = cut
    g = np.array(g, dtype=float)
    case.check(g.shape == (spec.n,) and bool(np.all(np.isfinite(g))) and bool(np.any(g != 0)), "malformed gradient", **wit)
    if np.ndim(beta) == 0:
        b = [float(beta)]
    else:
        b = [float(t) for t in beta]
    case.check(len(b) in (1, 2) and all(math.isfinite(t) for t in b), "malformed offset", **wit)
    if deep:
        case.check(b[0] > 0, "the cut does not cut the violating point off", **wit)
    gx = float(g @ x)
    scale = float(np.abs(g) @ np.abs(x)) + abs(b[0]) + abs(spec.up) + 1e-12
    at = []
    hi = extreme(spec, g, sp, at)
    case.hit("cut-judged")
    if hi is None:
        case.hit("empty-specification")
        return
    case.check(hi - gx + b[0] <= 3e-6 * scale, "the cut removes a design that meets the specification", excess=hi - gx + b[0], **wit)
    if len(b) == 2:
        lo = -extreme(spec, -g, sp, at)
        case.hit("second-plane")
        case.check(
            lo - gx + b[1] >= -3e-6 * scale, "the second plane of the cut removes a design that meets the specification",
            excess=lo - gx + b[1], **wit,
        )
    if z is None:
        return
    for y in at:  # the same to the last digits, at designs that are admissible as they stand
        y = admissible(spec, y, z, sp)
        if y is None:
            continue
        case.hit("vertex-judged")
        tol = 1e-11 * (float(np.abs(g) @ (np.abs(x) + np.abs(y))) + max(abs(t) for t in b))
        v = float(g @ (y - x))
        case.check(v + b[0] <= tol, "the cut removes a design that meets the specification", design=y, excess=v + b[0], **wit)
        case.check(
            len(b) < 2 or v + b[1] >= -tol, "the second plane of the cut removes a design that meets the specification",
            design=y, excess=v + b[-1], **wit,
        )


def truth(spec, x, sp):
    """(+1 meets, -1 violates, 0 too close)."""
    G, h, _, _ = spec.rows(sp)
    v = G @ x - h
    tol = 1e-11 * (float(np.abs(x).sum()) * 2 + abs(spec.up))
    if v.max() > tol:
        return -1
    return 1 if v.max() < -tol else 0


def needle(case, spec, z, sp):
    """A point violating exactly one chosen constraint, clearly."""
    r = case.rng
    G, h, idx, tag = spec.rows(sp)
    edge = r.random() < 0.5
    if edge:  # first / last index of a band
        want = str(r.choice(sorted(set(tag))))
        rows = [i for i in range(len(tag)) if tag[i] == want]
        i = rows[0] if r.random() < 0.5 else rows[-1]
    else:
        i = int(r.integers(len(tag)))
    keep = np.arange(len(h)) != i
    # the same row on the other side must not be needed, but all the rest hold
    res = linprog(
        -G[i], A_ub=np.vstack([G[keep], G[i][None]]), b_ub=np.append(h[keep], h[i] + abs(h[i]) + spec.up + 1.0),
        bounds=[(None, None)] * spec.n, method="highs",
    )
    if res.status != 0:
        return None, None, None
    viol = float(G[i] @ res.x - h[i])
    slack = float(h[i] - G[i] @ z)
    if viol < 1e-6 * (spec.up + abs(h[i])) or slack <= 0:
        return None, None, None
    th = 0.5 * viol / (viol + slack)
    if r.random() < 0.4:  # violated by very little
        eps = 10.0 ** float(r.uniform(-10.5, -2)) * (spec.up + 2 * float(np.abs(z).sum()))
        if eps < 0.5 * viol:
            th = (viol - eps) / (viol + slack)
            case.hit("fine-needle")
    return (1 - th) * res.x + th * z, tag[i], edge


def draw_point(case, spec, z, sp):
    r = case.rng
    u = r.random()
    if u < 0.6:
        y, tag, edge = needle(case, spec, z, sp)
        if y is not None:
            return y, tag, edge
    if u < 0.8:
        y = z.copy()
        if sp < spec.sp:
            return y, "planted", False
        return y + r.normal(size=spec.n) * float(np.abs(z).max()) * 10.0 ** float(r.uniform(-4, -1.5)), "near", False
    if u < 0.87:  # nearly the same response at every frequency
        y = r.normal(size=spec.n) * 10.0 ** float(r.uniform(-12, -3))
        y[0] = 1.0
        return y * float(r.choice([spec.lp, spec.up, sp])) * float(r.uniform(0.5, 1.0)), "flat", False
    return r.normal(size=spec.n) * float(np.abs(z).max()) * 10.0 ** float(r.uniform(-1.5, 1)), "random", False


def decoys(case, spec):
    """Filters that differ in one parameter, built first."""
    r = case.rng
    case.decoys(
        LowpassOracle, (spec.n, spec.wp, spec.ws, spec.lp, spec.up, spec.sp),
        {
            0: lambda n: n + int(r.integers(1, 4)), 1: lambda w: w * float(r.uniform(0.3, 0.9)),
            2: lambda w: w + (0.99 - w) * float(r.uniform(0.1, 0.9)), 3: lambda t: t * float(r.uniform(0.5, 0.9)),
            4: lambda t: t * float(r.uniform(1.1, 2)), 5: lambda t: t * float(r.choice([0.5, 2.0])),
        },
    )


def sequences(case):
    r = case.rng
    spec, z = draw_spec(case)
    decoys(case, spec)
    om = case.sut(LowpassOracle, spec.n, spec.wp, spec.ws, spec.lp, spec.up, spec.sp)
    optim = bool(r.random() < 0.5)
    case.prelude(
        lambda i: case.sut(om.assess_optim, z * (1 + 0.2 * r.normal(size=spec.n)), spec.sp * float(r.uniform(1, 1.6)))
        if optim else case.sut(om.assess_feas, z * (1 + 0.2 * r.normal(size=spec.n))),
        0.06,
    )
    case.show(taps=spec.n, wpass=spec.wp, wstop=spec.ws, lower=spec.lp, upper=spec.up, stop=spec.sp, optim=optim)
    for depth in range(int(r.integers(2, 9))):
        sp = spec.sp
        if optim:
            sp = spec.sp * float(r.uniform(1.0, 1.6)) if r.random() < 0.7 else spec.sp
        x, tag, edge = draw_point(case, spec, z, sp)
        if depth and r.random() < 0.25 and truth(spec, z, sp) > 0:
            # next to the point asked before, on either side of the boundary
            lo, hi = 0.0, 1.0  # z + t (last - z): meets at 0
            if truth(spec, last, sp) <= 0:
                for _ in range(40):
                    mid = (lo + hi) / 2
                    if truth(spec, z + mid * (last - z), sp) > 0:
                        lo = mid
                    else:
                        hi = mid
                x, tag, edge = z + (lo + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-10, -3))) * (last - z), "near", False
            else:
                x, tag, edge = last * (1 + 1e-9 * r.normal(size=spec.n)), "near", False
            case.hit("near-repeat")
        last = x.copy()
        want = truth(spec, x, sp)
        x = case.reuse("x", x)
        x0 = x.copy()
        wit = dict(spec=[spec.n, spec.wp, spec.ws, spec.lp, spec.up, sp], x=x0, kind=tag, depth=depth, optim=optim)
        if optim:
            cut, new = case.sut(om.assess_optim, x, sp)
            ok = new is not None
        else:
            cut, new = case.sut(om.assess_feas, x), None
            ok = cut is None
        case.check(np.array_equal(x, x0), "the query point was modified", **wit)
        wit["answer"] = cut
        if want:
            case.check(ok == (want > 0), "wrong verdict on the specification", meets=want > 0, **wit)
            if want < 0 and tag not in ("near", "random", "planted", "flat"):
                case.hit("needle:" + tag)
                if edge:
                    case.hit("edge-needle")
        if ok:
            case.hit("accepted")
        if ok and optim:
            best = float((spec.A @ x)[spec.st].max())
            case.hit("improved")
            case.check(
                abs(float(new) - best) <= 1e-12 * (abs(best) + float(np.abs(x).sum())),
                "the improved value is not the worst stop-band response", got=float(new), worst=best, **wit,
            )
            judge_cut(case, spec, cut, x, float(new), False, wit, z)
        elif not ok:
            judge_cut(case, spec, cut, x, sp, True, wit, z)
        case.signature(optim, spec.n, tag, edge, depth, ok)


def optimum(spec):
    G, h, _, tag = spec.rows(0.0)
    col = np.array([-1.0 if t == "stop-high" else 0.0 for t in tag])[:, None]
    c = np.zeros(spec.n + 1)
    c[-1] = 1
    res = linprog(c, A_ub=np.hstack([G, col]), b_ub=h / spec.up, bounds=[(None, None)] * (spec.n + 1), method="highs")
    return float(res.fun) * spec.up if res.status == 0 else None


def solver(case):
    """Whole designs, including the stock example, through both spaces."""
    r = case.rng
    if r.random() < 0.4:
        n = int(r.integers(4, 20))
        if not edges_ok(n, 0.12, 0.2):
            return
        om = case.sut(create_lowpass_case, n)
        spec = Spec(n, 0.12, 0.2, 1.025**-2, 1.025**2, 0.125**2)
        stock = True
    else:
        spec, z = draw_spec(case)
        n = spec.n
        decoys(case, spec)
        om = case.sut(LowpassOracle, n, spec.wp, spec.ws, spec.lp, spec.up, spec.sp)
        stock = False
    if n < 2:
        return
    opt = optimum(spec)
    cls = Ell if r.random() < 0.6 else EllStable
    space = cls(40.0 if stock else 4.0 * float(np.abs(z) @ np.abs(z)) + 1.0, np.zeros(n))
    space.helper.use_parallel_cut = bool(r.random() < 0.8)
    opts = Options()
    opts.max_iters = int(r.choice([30, 300, 1500]))
    opts.tolerance = float(r.choice([1e-8, 1e-20]))
    gamma = spec.sp * (1.0 if stock else float(r.uniform(1, 3)))
    case.hit("solver-run")
    # the plain space loses definiteness at extreme eccentricity (documented limit)
    limit = (ValueError,) if cls is Ell else ()
    try:
        if r.random() < 0.3:
            x, num = case.sut(cutting_plane_feas, om, space, opts, allow=limit)
            g = spec.sp
        else:
            x, g, num = case.sut(cutting_plane_optim, om, space, gamma, opts, allow=limit)
    except limit:
        case.hit("precision-limit")
        return
    wit = dict(stock=stock, taps=n, wp=spec.wp, ws=spec.ws, lp=spec.lp, up=spec.up, sp=spec.sp, gamma=g, x=x, iterations=num, space=cls.__name__)
    if x is None:
        case.signature("none", n, cls.__name__, stock)
        return
    case.hit("designed")
    case.check(truth(spec, x, float(g)) >= 0, "the design returned violates its specification", **wit)
    if opt is not None:
        case.check(float(g) >= opt - 1e-6 * (abs(opt) + spec.up), "better than the best possible design", optimum=opt, **wit)
    case.signature("design", n, cls.__name__, stock, num // 50)


def bump(spec, k):
    """A design whose response is non-negative and concentrated at grid frequency k."""
    j = np.arange(spec.n)
    c = (1.0 - j / spec.n) * np.cos(j * math.pi * k / (spec.m - 1))
    return c / (spec.A @ c)[k]


def long_filters(case):
    """Filters of any length: a planted design moved along a bump until the worst grid frequency
    of one band is just inside or just outside its limit."""
    r = case.rng
    lit = sorted({k + d for j in case.lits["ints"] for k in (j, j // 15) for d in (0, 1, 2) if 17 <= k + d <= 160})
    n = int(r.integers(17, 150)) if r.random() < 0.6 or not lit else int(r.choice(lit))
    spec, z = draw_spec(case, n)
    om = case.sut(LowpassOracle, n, spec.wp, spec.ws, spec.lp, spec.up, spec.sp)
    G, h, idx, tag = spec.rows()
    tag = np.array(tag)
    slack = h - G @ z
    optim = bool(r.random() < 0.5)
    met = [z]
    for depth in range(int(r.integers(3, 9))):
        band = str(r.choice(sorted(set(tag.tolist()))))
        rows = np.flatnonzero(tag == band)
        i = int(r.choice(rows)) if r.random() < 0.7 else int(rows[0] if r.random() < 0.5 else rows[-1])
        d = bump(spec, idx[i]) * (1.0 if band.endswith("high") else -1.0)
        rise = G @ d
        with np.errstate(divide="ignore", invalid="ignore"):
            lim = np.where(rise > 1e-12, slack / rise, np.inf)
        order = np.argsort(lim)[:2]
        t0, t1 = float(lim[order[0]]), float(lim[order[1]])
        if not math.isfinite(t0):
            continue
        inside = bool(r.random() < 0.4)
        gap = (t1 - t0) if math.isfinite(t1) else t0
        step = t0 * (1.0 - 10.0 ** float(r.uniform(-6, -1))) if inside else t0 + gap * float(r.uniform(0.05, 0.95))
        x = z + step * d
        want = truth(spec, x, spec.sp)
        x0 = x.copy()
        wit = dict(spec=[n, spec.wp, spec.ws, spec.lp, spec.up, spec.sp], x=x, kind=str(tag[order[0]]), depth=depth, optim=optim)
        if optim:
            cut, new = case.sut(om.assess_optim, x, spec.sp)
            ok = new is not None
        else:
            cut, new = case.sut(om.assess_feas, x), None
            ok = cut is None
        case.check(np.array_equal(x, x0), "the query point was modified", **wit)
        case.hit("long-query")
        if want:
            case.check(ok == (want > 0), "wrong verdict on the specification", meets=want > 0, **wit)
        if want < 0:
            case.hit("long-needle:" + str(tag[order[0]]))
        if want > 0:
            met.append(x0)
        if ok and optim:
            best = float((spec.A @ x)[spec.st].max())
            case.check(
                abs(float(new) - best) <= 1e-12 * (abs(best) + float(np.abs(x).sum())),
                "the improved value is not the worst stop-band response", got=float(new), worst=best, **wit,
            )
        if cut is not None:
            g, beta = np.array(cut[0], dtype=float), np.atleast_1d(np.asarray(cut[1], dtype=float))
            case.check(ok or beta[0] > 0, "the cut does not cut the violating point off", answer=cut, **wit)
            for y in met:
                if ok and truth(spec, y, float(new)) <= 0:
                    continue  # no better than the point just accepted
                v = float(g @ (y - x)) + beta
                tol = 1e-8 * (float(np.abs(g) @ (np.abs(x) + np.abs(y))) + float(np.abs(beta).max()))
                case.hit("long-cut-judged")
                case.check(v[0] <= tol and (len(v) < 2 or v[1] >= -tol), "the cut removes a design that meets the specification",
                           design=y, values=v, answer=cut, **wit)
        case.signature("long", optim, n, str(tag[order[0]]), inside, ok)


def edges(case):
    """Flat designs: the response is the first coefficient at every frequency, without
    rounding, so that limits met exactly, or missed by the last digit, can be judged."""
    r = case.rng
    n = int(r.integers(2, 13))
    while True:
        wp, ws = float(r.uniform(0.05, 0.5)), float(r.uniform(0.1, 0.9))
        if wp < ws and edges_ok(n, wp, ws):
            break
    c = float(r.choice([0.0, 1.0, float(10.0 ** r.uniform(-6, 6)), float(r.integers(1, 9))]))
    out = {"up": c * 1.5 + 1.0, "lp": 0.5 * c, "sp": c * 1.2 + 1.0}
    hit = []
    for key in out:
        if r.random() < 0.6:
            out[key] = c
            hit.append(key)
    ok = True
    if hit and r.random() < 0.5:
        key = str(r.choice(hit))
        out[key] = float(np.nextafter(c, math.inf if key == "lp" else -math.inf))
        ok = False
    if c == 0.0 and r.random() < 0.5:
        out["lp"] = -1.0
        c = -float(10.0 ** r.uniform(-300, -3))
        ok = False
        out["up"], out["sp"] = max(out["up"], 0.0), max(out["sp"], 0.0)
    if out["lp"] > out["up"] or out["sp"] < 0:
        return
    om = case.sut(LowpassOracle, n, wp, ws, out["lp"], out["up"], out["sp"])
    x = np.zeros(n)
    x[0] = c
    wit = dict(n=n, level=c, limits=out, meets=ok)
    for depth in range(int(r.integers(1, 4))):
        if r.random() < 0.5:
            cut, new = case.sut(om.assess_optim, x, out["sp"])
            got = new is not None
            case.check(not got or float(new) == c, "the improved value is not the worst stop-band response", got=new, **wit)
        else:
            cut = case.sut(om.assess_feas, x)
            got = cut is None
        case.hit("edge-met" if ok else "edge-missed")
        case.check(got == ok, "wrong verdict on the specification", answer=cut, depth=depth, **wit)
        if not ok:
            b = float(np.atleast_1d(np.asarray(cut[1], dtype=float))[0])
            case.check(b > 0, "the cut does not cut the violating point off", answer=cut, **wit)
    case.signature("edge", n, ok, tuple(hit), c == 0)


FAMILIES = {
    "edges": (edges, 2000, 10000),
    "long_filters": (long_filters, 250, 2500),
    "sequences": (sequences, 1600, 14000),
    "solver": (solver, 200, 1500),
}
