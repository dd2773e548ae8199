"""C24: numerical hygiene: no overflow, no invalid operation, no NaN, at any sensible scale."""

import math
import warnings

import numpy as np

from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim
from ellalgo.ell_calc import EllCalc
from ellalgo.ell_config import CutStatus, Options
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact
from vlib import ellipsoid as E
from vlib import profit as PM

PROPERTY = "C24"
VOLUME = 3
ANCHORS = [
    "ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py", "conjugate_gradient.py", "oracles/ldlt_mgr.py",
    "oracles/lmi_oracle.py", "oracles/lowpass_oracle.py", "oracles/profit_oracle.py", "oracles/spectral_fact.py",
]
UNREACHED_OK = ("",)
RULE = (
    "floating-point traps (divide, overflow, invalid) and warnings-as-errors armed around every "
    "call; set sizes 1e-30..1e30, gradients 1e-30..1e30, mixed axes, offsets on and next to every "
    "decision boundary, zero and vanishing gradients; distinct = (component, scale decade pair, status)"
)
REQUIRED = {
    "trapped-calls": 10000, "scaled-updates": 4000, "zero-gradient": 150, "tiny-gradient": 150, "calc": 5000, "small-components": 800,
    "equivariant": 2000, "solver": 100,
}
ASSUMPTIONS = [
    "squared half-widths between 1e-130 and 1e130 (the formulas square them once more)",
    "updates are judged while the set is well conditioned in double precision",
]


def trapped(case, fn, *a, **k):
    """Call with the floating-point traps armed."""
    case.hit("trapped-calls")
    with warnings.catch_warnings(), np.errstate(divide="raise", over="raise", invalid="raise"):
        warnings.simplefilter("error", RuntimeWarning)
        return case.sut(fn, *a, **k)


def finite(*xs):
    return all(bool(np.all(np.isfinite(np.asarray(x, dtype=float)))) for x in xs)


def scaled(case):
    """A history and its image under scaling of space and gradients, both trapped."""
    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    n = E.pick_dim(case, 12)
    size = 10.0 ** float(r.choice([r.uniform(-30, 30), r.uniform(-55, 55), r.uniform(-3, 3)]))
    axes = 10.0 ** r.uniform(-3, 3, n) if r.random() < 0.4 else np.ones(n)
    c = r.normal(size=n)
    base = trapped(case, E.SPACES[cls], axes**2, c * axes)
    big = trapped(case, E.SPACES[cls], (axes * size) ** 2, c * axes * size)
    if r.random() < 0.2:
        base.no_defer_trick = big.no_defer_trick = True
    thin = 1.0
    for step in range(int(r.integers(1, 10))):
        kind = str(r.choice(E.KINDS))
        g = r.normal(size=n) / axes
        if r.random() < 0.3:
            g = g * (r.random(n) < 0.5)
            if not g.any():
                g[0] = 1.0 / axes[0]
        for _ in range(40):
            a0, a1 = E.rand_alphas(case, n, kind)
            lo, hi = E.retained(kind, a0 if a1 is None else [a0, a1], 1.0)
            if not E.degenerate(lo, hi) and E.asserted_domain(kind, a0, a1, lo, hi, a1 is not None) and min(hi, 1) - max(lo, -1) > 1e-4:
                break
        else:
            return
        thin *= min(1.0, (min(hi, 1) - max(lo, -1)) / 2)
        # gradients: as far as products of two squared lengths can be represented
        s10 = math.log10(size)
        t10 = s10 + float(r.choice([r.uniform(-30, 30), 0.0]))
        if r.random() < 0.4:
            t10 = float(r.uniform(-66, 66))
            case.hit("far-scale")
        t10 = min(max(t10, -66, -130 - s10), 66, 130 - s10)
        k = 10.0 ** (t10 - s10)
        tau = math.sqrt(E.width2(case, base, g))
        b = a0 * tau if a1 is None else (a0 * tau, a1 * tau)
        bb = a0 * tau * k * size if a1 is None else (a0 * tau * k * size, a1 * tau * k * size)
        m = {"bias": "update_bias_cut", "central": "update_central_cut", "q": "update_q"}[kind]
        s0 = trapped(case, getattr(base, m), (g, b))
        s1 = trapped(case, getattr(big, m), (g * k, bb))
        case.hit("scaled-updates")
        wit = dict(space=cls, n=n, size=size, gradient_scale=k, kind=kind, alpha=[a0, a1], axes=axes, step=step, gradient=g)
        case.check(isinstance(s1, CutStatus) and finite(big.xc(), big.tsq()), "an update left a center or size that is not finite", xc=big.xc(), tsq=big.tsq(), **wit)
        margin = min(abs(abs(t) - 1) for t in (a0, a1 if a1 is not None else 2.0, 1.0 + a0 * n, 1.0 + n * a0 * (a1 if a1 is not None else 0) + 1.0))
        if s0 != s1 and margin > 1e-6:
            near = E.expected_status(n, kind, lo, hi, a1 is not None, 1e-6)
            case.check(s1 in near, "the outcome of a cut depends on the unit of measurement", small=s0, big=s1, **wit)
            return
        if s0 != s1:
            return
        w0, w1 = E.width2(case, base, g), E.width2(case, big, g)
        case.check(math.isfinite(w1) and w1 > 0, "the set lost its width", width=w1, **wit)
        # cuts cross-check the scaling of the result while rounding is harmless
        ax = np.array([E.width2(case, base, e) for e in np.eye(n)])
        case.check(bool(np.all(ax > 0)), "the set lost its width", widths=ax, **wit)
        if step < 6 and thin > 1e-3 and w0 > 1e-3 * float((g * g) @ ax) / n:
            case.hit("equivariant")
            rel = abs(w1 / size / size - w0) / w0
            case.check(rel <= 1e-6, "the set after a cut depends on the unit of measurement", relative=rel, **wit)
            dx = np.abs(np.asarray(big.xc()) / size - np.asarray(base.xc())) / np.sqrt(ax)
            case.check(float(dx.max()) <= 1e-6 * (1 + float(np.max(np.abs(c * axes) / np.sqrt(ax)))), "the center after a cut depends on the unit of measurement", **wit)
    case.signature("scaled", cls, n, round(math.log10(size) / 6), step)
    case.show(space=cls, n=n, size=size)


def unusable(case):
    case.hit("trapped-calls")
    with warnings.catch_warnings(), np.errstate(divide="raise", over="raise", invalid="raise"):
        warnings.simplefilter("error", RuntimeWarning)
        E.unusable(case)


def calculators(case):
    """All regimes and both sides of every boundary, at extreme sizes."""
    r = case.rng
    n = int(r.integers(2, 40))
    c = EllCalc(n)
    for _ in range(10):
        kind = str(r.choice(E.KINDS))
        a0, a1 = E.rand_alphas(case, n, kind)
        # the pair formulas multiply two squared widths; the others only square
        dec = 60 if a1 is not None and kind != "central" else 145
        tau = 10.0 ** float(r.uniform(-dec, dec)) if r.random() < 0.5 else 2.0 ** int(r.integers(-3 * dec, 3 * dec))
        if r.random() < 0.3 and a1 is not None:
            a1 = float(np.nextafter(a1, float(r.choice([-9, 9]))))
        lo, hi = E.retained(kind, a0 if a1 is None else [a0, a1], 1.0)
        if not E.asserted_domain(kind, a0, a1, lo, hi, a1 is not None) or E.degenerate(lo, hi):
            continue
        fn = {"bias": c.calc_single_or_parallel, "central": c.calc_single_or_parallel_central_cut, "q": c.calc_single_or_parallel_q}[kind]
        tsq = tau * tau
        st, res = trapped(case, fn, a0 * tau if a1 is None else (a0 * tau, a1 * tau), tsq)
        case.hit("calc")
        wit = dict(n=n, tau=tau, kind=kind, alpha=[a0, a1], status=st, result=res)
        if res is not None:
            rho, sigma, delta = (float(v) for v in res)
            case.check(finite(rho, sigma, delta), "cut parameters are not finite", **wit)
            case.check(sigma < 1.0 and delta > 0.0, "cut parameters do not describe an ellipsoid", **wit)
            case.check(abs(rho) <= tau * (1 + 1e-9), "the center would leave the set", **wit)
        if math.frexp(tau)[0] == 0.5 and all(a is None or abs(a) > 1e-30 or a == 0 for a in (a0, a1)):
            # a power of two: the question in other units is exactly the same question
            st1, res1 = trapped(case, fn, a0 if a1 is None else (a0, a1), 1.0)
            case.check(st1 == st, "the status depends on the unit of length", unit=st1, **wit)
            case.hit("unit-question")
            if res is not None:
                err = [abs(rho / tau - res1[0]), abs(sigma - res1[1]), abs(delta - res1[2])]
                case.check(max(err) <= 1e-12, "the cut parameters depend on the unit of length", unit=res1, **wit)
        case.signature("calc", n, kind, st.name, round(math.log10(tau) / 20))


def components(case):
    r = case.rng
    which = str(r.choice(["ldlt", "lmi", "cg", "spectral", "profit", "lowpass"]))
    k = 10.0 ** float(r.uniform(-30, 30))
    n = int(r.integers(1, 7))
    M = r.normal(size=(n, n))
    S = (M @ M.T + (0.5 if r.random() < 0.5 else -1.5) * np.eye(n)) * k
    if which == "ldlt":
        mgr = trapped(case, LDLTMgr, n)
        for i in range(3):
            if i == 1:
                S = np.zeros((n, n))
            if i == 2:
                S = np.rint(M) + np.rint(M).T
            if trapped(case, mgr.factorize, S):
                case.check(finite(trapped(case, mgr.sqrt)), "square root is not finite", matrix=S)
            else:
                ep = trapped(case, mgr.witness)
                case.check(finite(ep, mgr.wit), "certificate is not finite", matrix=S, witness=mgr.wit, ep=ep)
    elif which == "lmi":
        d = int(r.integers(1, 4))
        F = [(lambda Q: Q + Q.T)(r.normal(size=(n, n)) * k) for _ in range(d)]
        for om in (LMIOracle(F, S), LMIOldOracle(F, S)):
            for _ in range(3):
                cut = trapped(case, om.assess_feas, r.normal(size=d))
                case.check(cut is None or finite(cut[0], cut[1]), "cut is not finite", cut=cut)
    elif which == "cg":
        P = (M @ M.T + np.eye(n)) * 10.0 ** float(r.uniform(-10, 10))
        b = r.normal(size=n) * 10.0 ** float(r.uniform(-10, 10)) * float(r.choice([1.0, 1.0, 0.0]))
        try:
            x = trapped(case, conjugate_gradient, P, b, None, tol=1e-6 * float(np.linalg.norm(b)) + 1e-300, allow=(ValueError,))
            case.check(finite(x), "solution is not finite", A=P, b=b, x=x)
        except ValueError as e:
            case.check(float(np.linalg.norm(b)) == 0.0 or np.linalg.cond(P) > 1e6, "a well conditioned system was refused", A=P, b=b, error=str(e))
    elif which == "spectral":
        h = np.concatenate([[3.0 * n], r.normal(size=n - 1)]) * 10.0 ** float(r.uniform(-3, 12))
        ac = trapped(case, inverse_spectral_fact, h)
        case.check(finite(ac), "autocorrelation is not finite", h=h)
        case.check(finite(trapped(case, spectral_fact, ac)), "factor is not finite", h=h)
    elif which == "profit":
        p, A, lim, a, v = PM.draw(case)
        om, oq = ProfitOracle((p, A, lim), a, v), ProfitQOracle((p, A, lim), a, v)
        for _ in range(4):
            x = r.uniform(-30, 30, 2)
            g = float(r.choice([0.0, 1.0, 1e6]))
            cut, new = trapped(case, om.assess_optim, x, g)
            case.check(finite(cut[0], cut[1]) and (new is None or math.isfinite(new)), "answer is not finite", x=x, cut=cut, new=new)
            cut, xq, new, _ = trapped(case, oq.assess_optim_q, x, g, False)
            case.check(finite(cut[0], cut[1], xq), "answer is not finite", x=x, cut=cut, plan=xq)
    else:
        om = LowpassOracle(n + 1, 0.15, 0.4, 0.5, 1.5, 0.4)
        for _ in range(4):
            cut, new = trapped(case, om.assess_optim, r.normal(size=n + 1) * 10.0 ** float(r.uniform(-30, 30)), float(10.0 ** r.uniform(-6, 6)))
            case.check(finite(cut[0], cut[1]), "answer is not finite", cut=cut)
    case.hit("small-components")
    case.signature(which, n, round(math.log10(k) / 10))


def flat(case):
    """Cuts that leave a point or a disc: nothing may become undefined."""
    E.flat(case, lambda fn, *a: trapped(case, fn, *a))


class Boxed:
    def __init__(self, lo, hi, c):
        self.lo, self.hi, self.c = lo, hi, c

    def assess_feas(self, x):
        for i in range(len(x)):
            e = np.zeros(len(x))
            if x[i] > self.hi[i]:
                e[i] = 1.0
                return e, float(x[i] - self.hi[i])
            if x[i] < self.lo[i]:
                e[i] = -1.0
                return e, float(self.lo[i] - x[i])
        return None

    def assess_optim(self, x, gamma):
        cut = self.assess_feas(x)
        if cut is not None:
            return cut, None
        f = float(self.c @ x)
        if f > gamma:
            return (self.c.copy(), f - gamma), None
        return (self.c.copy(), 0.0), f


def solver(case):
    """Whole runs at extreme scales, trapped from end to end."""
    r = case.rng
    n = int(r.integers(2, 5))
    k = 10.0 ** float(r.uniform(-20, 20))
    cls = str(r.choice(list(E.SPACES)))
    z = r.normal(size=n) * k
    w = r.uniform(0.2, 1, n) * k
    om = Boxed(z - w, z + w, r.normal(size=n))
    sp = trapped(case, E.SPACES[cls], (8 * k) ** 2 * n, np.zeros(n))
    o = Options()
    o.max_iters, o.tolerance = 40 * n * n, 1e-9 * k * k
    x, num = trapped(case, cutting_plane_feas, om, sp, o)
    wit = dict(scale=k, n=n, space=cls, x=x, iterations=num)
    case.check(x is not None and finite(x), "no feasible point found at this scale", **wit)
    sp = trapped(case, E.SPACES[cls], (8 * k) ** 2 * n, np.zeros(n))
    x, g, num = trapped(case, cutting_plane_optim, om, sp, math.inf if r.random() < 0.3 else 1e9 * k, o)
    best = float(om.c @ z - np.abs(om.c) @ w)
    case.check(x is not None and finite(x, g), "no optimum found at this scale", value=g, best=best, **wit)
    case.check(best - 1e-9 * k * n <= float(g) <= best + 1e-2 * k, "value found is off at this scale", value=g, best=best, **wit)
    case.hit("solver")
    case.signature("solver", n, cls, round(math.log10(k) / 4))


FAMILIES = {
    "scaled": (scaled, 6000, 50000),
    "unusable": (unusable, 800, 5000),
    "flat": (flat, 400, 4000),
    "calculators": (calculators, 4000, 40000),
    "components": (components, 5000, 40000),
    "solver": (solver, 250, 2000),
}
