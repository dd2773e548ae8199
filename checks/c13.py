"""C13: the bisection adaptor isolates its probes and keeps only feasible points."""

import copy
from fractions import Fraction

import numpy as np

from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas
from ellalgo.ell_config import Options
from vlib import ellipsoid as E
from vlib import trace as T
from vlib.core import InjectedFault

PROPERTY = "C13"
VOLUME = 4
ANCHORS = ["cutting_plane.py"]
RULE = (
    "parametric feasibility families driven probe by probe (any order of parameters, faults, both "
    "spaces) and under full bisections; distinct = (family, space, dim, probe outcome pattern)"
)
UNREACHED_OK = ("bsearch",)  # its iteration limit is the subject of C12
REQUIRED = {
    "probe:feasible": 400, "probe:infeasible": 200, "bisection": 80, "faults-out": 40,
    "replayed": 400, "best-point-moved:move": 200, "best-point-moved:shrink": 20,
}


class Nested:
    """{x : A x <= b(gamma)}: grows, shrinks or moves with gamma; every cut is exact."""

    def __init__(self, case, n, mode="grow"):
        r = case.rng
        self.case = case
        m = int(r.integers(n + 1, 3 * n + 2))
        A = r.normal(size=(m, n))
        A /= np.linalg.norm(A, axis=1)[:, None]
        # bounded: add the box
        self.A = np.vstack([A, np.eye(n), -np.eye(n)])
        self.w = np.concatenate([np.ones(m), np.full(2 * n, 0.3)])
        x0 = r.normal(size=n)
        self.b = self.A @ x0 - float(r.uniform(0.2, 0.6))
        self.mode = mode
        if mode == "shrink":
            self.b = self.b + self.w * 1.0
        self.drift = self.A @ (r.normal(size=n) * float(r.uniform(0.3, 1.5)))
        self.parallel = r.random() < 0.3
        self.gamma = None
        self.asked = []
        self.accepted = None
        self.fault_at = None
        self.k = 0

    def update(self, gamma):
        self.case.check(self.gamma is None or True, "")
        self.gamma = gamma
        self.asked = []
        self.accepted = None
        self.updated = True

    def violation(self, x, gamma):
        v = self.A @ np.asarray(x, float) - self.b
        if self.mode == "move":
            return v - self.w - float(gamma) * self.drift
        return v - float(gamma) * self.w * (1.0 if self.mode == "grow" else -1.0)

    def assess_feas(self, x):
        self.k += 1
        if self.fault_at is not None and self.k == self.fault_at:
            raise self.fault
        case = self.case
        case.check(self.gamma is not None, "the oracle was asked before it was told the parameter")
        x = np.array(x, dtype=float)
        self.asked.append(x)
        v = self.violation(x, self.gamma)
        k = int(np.argmax(v))
        if v[k] <= 0:
            self.accepted = x.copy()
            return None
        return self.A[k].copy(), ((float(v[k]), float(v[k]) + 50.0) if self.parallel else float(v[k]))


def setup(case, mode="grow"):
    r = case.rng
    n = int(r.integers(2, 6))
    cls = str(r.choice(list(E.SPACES)))
    om = Nested(case, n, mode)
    x0 = r.normal(size=n) if r.random() < 0.8 else np.zeros(n)
    val = float(r.choice([10.0, 100.0])) if r.random() < 0.6 else r.uniform(5, 50, n)
    if r.random() < 0.3:
        val = float(10.0 ** r.uniform(2, 8))
    past = r.normal(size=(3, n)) if r.random() < 0.4 else []  # not fresh: it has a history
    defer = r.random() < 0.2

    def make():
        """The same space again, built the same way (not by copying)."""
        sp = case.sut(E.SPACES[cls], np.copy(val) if np.ndim(val) else val, x0.copy())
        if defer:
            sp.no_defer_trick = True
        for g in past:
            sp.update_central_cut((g.copy(), 0.0))
        return sp

    def twin(sp):
        t = make()
        t.set_xc(np.array(sp.xc(), dtype=float))
        return t

    om.twin = twin
    sp = make()
    opt = Options()
    opt.max_iters = int(r.choice([2000, 200, 20, 5]))
    opt.tolerance = float(r.choice([1e-20, 1e-10, 1e-6]))
    return n, cls, om, sp, opt


def same(case, o, sp, xb, what):
    o2 = E.observe(case, sp)
    case.check(np.array_equal(np.asarray(sp.xc(), float), xb), what + ": center", center=sp.xc(), expected=xb)
    case.check(E.same_shape(o, o2, 1e-11), what + ": shape", before=o.P, after=o2.P)


def probes(case):
    r = case.rng
    mode = str(r.choice(["grow", "shrink", "move", "move"]))
    n, cls, om, sp, opt = setup(case, mode)
    ad = case.sut(BSearchAdaptor, om, sp, opt)
    if n <= 3:
        case.prelude(lambda i: case.sut(ad.assess_bs, float(r.uniform(-3, 4))), 0.08, 120)
    o = E.observe(case, sp)
    xb = np.array(sp.xc(), dtype=float)
    case.check(np.array_equal(np.asarray(ad.x_best, float), xb), "best point before any probe is not the center")
    pattern = []
    for k in range(int(r.integers(2, 9))):
        gamma = float(r.choice([r.uniform(-3, 4), 0.0, r.uniform(0.3, 1.0)]))
        u = r.random()
        if u < 0.1:
            gamma = int(round(gamma))
        elif u < 0.2:
            gamma = Fraction(gamma).limit_denominator(50)
        elif u < 0.25:
            gamma = np.float64(gamma)
        if r.random() < 0.15:
            om.k, om.fault_at, om.fault = 0, int(r.integers(1, 3)), T.make_fault(case)
            try:
                case.sut(ad.assess_bs, gamma)
                fired = om.k >= om.fault_at
                case.check(not fired, "an exception from the oracle was swallowed")
                if om.accepted is not None:
                    xb = om.accepted
            except InjectedFault as e:
                case.check(e is om.fault, "an exception came out altered", got=repr(e))
                case.hit("faults-out")
            om.fault_at = None
            same(case, o, sp, xb, "a probe that raised changed the space")
            continue
        # what a plain feasibility solve of this parameter would do from here
        ref_om = copy.copy(om)
        ref_om.update(gamma)
        ref_sp = om.twin(sp)
        ref_x, _ = case.sut(cutting_plane_feas, ref_om, ref_sp, opt)
        om.gamma = None  # it must be told again
        ans = case.sut(ad.assess_bs, gamma)
        case.check(om.gamma == gamma and type(om.gamma) is type(gamma), "the oracle was left with another parameter", got=om.gamma, asked=gamma)
        case.check(bool(ans) == (ref_x is not None), "answer differs from the feasibility solve", got=ans, reference=ref_x)
        case.hit("replayed")
        case.check(
            bool(om.asked) and np.array_equal(om.asked[0], xb) or opt.max_iters == 0,
            "the probe did not start from the best point", started=om.asked[:1], best=xb,
        )
        case.check(bool(ans) == (om.accepted is not None), "answer differs from the oracle's verdict", got=ans)
        if ans:
            case.hit("probe:feasible")
            if not np.array_equal(xb, om.accepted):
                case.hit("best-point-moved:" + mode)
            xb = om.accepted
            case.check(
                bool(np.all(om.violation(ad.x_best, gamma) <= 0)), "the best point is infeasible for the accepted value", x=ad.x_best
            )
            case.check(np.array_equal(xb, np.asarray(ref_x, float)), "best point is not the solver's", got=xb)
        else:
            case.hit("probe:infeasible")
        case.check(np.array_equal(np.asarray(ad.x_best, float), xb), "best point is not the last accepted one", got=ad.x_best, expected=xb)
        same(case, o, sp, xb, "a probe changed the space")
        pattern.append(bool(ans))
    case.signature("probes", cls, n, tuple(pattern), opt.max_iters)
    case.show(space=cls, n=n, pattern=pattern)


def bisection(case):
    r = case.rng
    n, cls, om, sp, opt = setup(case)
    opt.max_iters, opt.tolerance = 2000, 1e-20
    ad = case.sut(BSearchAdaptor, om, sp, opt)
    o = E.observe(case, sp)
    log = []
    orig = ad.assess_bs

    def spy(g):
        ans = orig(g)
        log.append((g, bool(ans), None if om.accepted is None else om.accepted.copy()))
        return ans

    ad.assess_bs = spy
    bo = Options()
    bo.tolerance = float(r.choice([1e-1, 1e-3, 1e-5]))
    lo, hi = -3.0, float(r.choice([4.0, 8.0]))
    g, it = case.sut(bsearch, ad, (lo, hi), bo)
    case.hit("bisection")
    case.check(it == len(log), "iteration count is not the number of probes", got=it, probes=len(log))
    ok = [e for e in log if e[1]]
    if ok:
        case.check(g == ok[-1][0], "returned value is not the last accepted one", got=g, accepted=ok[-1][0])
        case.check(np.array_equal(np.asarray(ad.x_best, float), ok[-1][2]), "best point does not belong to the returned value")
        case.check(bool(np.all(om.violation(ad.x_best, g) <= 0)), "best point is infeasible for the returned value", x=ad.x_best, value=g)
        case.check(ok == sorted(ok, key=lambda e: -e[0]), "accepted values went up")
    else:
        case.check(g == hi, "nothing accepted, yet another value returned", got=g)
    same(case, o, sp, np.asarray(ad.x_best, float), "bisection changed the shape of the space")
    case.signature("bisect", cls, n, it, len(ok))


def defaults(case):
    """Without options an adaptor uses the documented defaults, and nobody else's."""
    r = case.rng
    n, cls, om, sp, _ = setup(case)
    other = Options()
    other.max_iters = 1
    other.tolerance = 1e9
    ad0 = case.sut(BSearchAdaptor, om, copy.deepcopy(sp), other)
    ad1 = case.sut(BSearchAdaptor, om, sp)
    for _ in range(2):
        gamma = float(r.uniform(-1, 3))
        case.sut(ad0.assess_bs, gamma)
        ref_om = copy.copy(om)
        ref_om.update(gamma)
        full = Options()
        full.max_iters, full.tolerance = 2000, 1e-20
        x, _ = case.sut(cutting_plane_feas, ref_om, om.twin(sp), full)
        ans = case.sut(ad1.assess_bs, gamma)
        case.check(bool(ans) == (x is not None), "default options are not 2000 iterations / 1e-20", got=ans)
    case.signature("defaults", cls, n, bool(ans))


FAMILIES = {
    "probes": (probes, 1500, 12000),
    "bisection": (bisection, 400, 3000),
    "defaults": (defaults, 150, 800),
}
