"""C25: the cut calculators give the optimal parameters, whichever formula is used."""

import math

import numpy as np

from ellalgo.ell_calc import EllCalc
from ellalgo.ell_calc_core import EllCalcCore
from ellalgo.ell_config import CutStatus
from vlib import ellipsoid as E

PROPERTY = "C25"
VOLUME = 4
ANCHORS = ["ell_calc.py", "ell_calc_core.py"]
UNREACHED_OK = ("calc_parallel_bias_cut_fast_old",)
RULE = (
    "offsets in units of the half-width drawn over all regimes (deep, central, shallow, slabs, "
    "decision boundaries) times scales of the set, dimensions 2..200; every formula against an "
    "independently derived smallest-ellipsoid model; distinct = (formula, dim, regime, status)"
)
REQUIRED = {
    "core:central": 300, "core:bias": 800, "core:parallel": 2000, "core:parallel-central": 500, "agree": 4000,
    "calc:Success": 2000, "calc:NoSoln": 500, "calc:NoEffect": 200, "serial": 300,
}


def dim(case):
    r = case.rng
    u = r.random()
    if u < 0.04:  # far beyond what a space could hold in a test
        big = sorted({k + d for k in case.lits["ints"] for d in (-1, 0, 1) if 200 < k + d <= 10**5})
        case.hit("huge-dimension")
        return int(r.choice(big)) if big and r.random() < 0.5 else int(10 ** r.uniform(2.3, 5))
    if u < 0.6:
        return int(r.integers(2, 8))
    if u < 0.85:
        return int(r.integers(8, 41))
    c = sorted({k + d for k in case.lits["ints"] for d in (-1, 0, 1) if 2 <= k + d <= 200})
    return int(r.choice(c)) if c and u < 0.93 else int(r.integers(41, 201))


def scale(case):
    return float(10.0 ** case.rng.choice([0.0, 0.0, case.rng.uniform(-12, 12)]))


def model(n, tau, lo, hi):
    t0, A2, B2, mu = E.minvol(n, max(lo, -1.0), min(hi, 1.0))
    return -t0 * tau, 1.0 - A2 / B2, B2, mu


def compare(case, got, want, tau, tol, what, **wit):
    got = tuple(float(v) for v in got)
    case.check(len(got) == 3 and all(math.isfinite(v) for v in got), what + ": malformed", got=got, **wit)
    err = (abs(got[0] - want[0]) / tau, abs(got[1] - want[1]), abs(got[2] - want[2]))
    case.check(max(err) <= tol, what, got=got, want=want[:3], error=err, tol=tol, **wit)


def core(case):
    r = case.rng
    n = dim(case)
    c = case.sut(EllCalcCore, float(n) if r.random() < 0.5 else n)
    for _ in range(6):
        tsq = scale(case) ** 2 * float(r.uniform(0.5, 2))
        tau = math.sqrt(tsq)
        wit = dict(n=n, tsq=tsq)
        compare(case, case.sut(c.calc_central_cut, tau), model(n, tau, -math.inf, 0.0), tau, 1e-12, "central cut", **wit)
        case.hit("core:central")
        # single cut: deep or shallow but useful
        a = float(r.choice([r.uniform(0, 0.999), -r.uniform(0, 1) / n * 0.999, 1 - 10.0 ** r.uniform(-4, -1), 10.0 ** r.uniform(-9, -1)]))
        wit["alpha"] = a
        want = model(n, tau, -math.inf, -a)
        tol = 1e-11 / (1 - a)
        compare(case, case.sut(c.calc_bias_cut, a * tau, tau), want, tau, tol, "single cut", **wit)
        compare(case, case.sut(c.calc_bias_cut_fast, a * tau, tau, tau + n * a * tau), want, tau, tol, "single cut, fast form", **wit)
        case.hit("core:bias", 2)
        # central pair
        a1 = float(r.choice([r.uniform(0.02, 1.0), 10.0 ** r.uniform(-4, -1), case.hot(1e-4, 1.0, 0.5), 1 - 10.0 ** r.uniform(-8, -1), 1.0]))
        wit["alpha"] = [0.0, a1]
        want = model(n, tau, -a1, 0.0)
        tol = 1e-11 * n / a1**2
        compare(case, case.sut(c.calc_parallel_central_cut, a1 * tau, tsq), want, tau, tol, "central pair", **wit)
        compare(case, case.sut(c.calc_parallel_central_cut_old, a1 * tau, tsq), want, tau, tol, "central pair, old form", **wit)
        case.hit("core:parallel-central", 2)
        # pair
        for _ in range(20):
            a0 = float(r.choice([r.uniform(0, 0.99), -r.uniform(0, 1), 0.0]))
            a1 = float(r.choice([a0 + r.uniform(0.02, 1), -a0, a0 + 10.0 ** r.uniform(-2, 0), -a0 + r.normal() * 1e-3]))
            if a1 > 1 or a1 - a0 < 0.01 or 1 + n * a0 * a1 < 1e-4:
                continue
            break
        else:
            continue
        wit["alpha"] = [a0, a1]
        want = model(n, tau, -a1, -a0)
        b0, b1 = a0 * tau, a1 * tau
        b0b1 = b0 * b1
        eta = tsq + n * b0b1
        tol = 1e-11 * n / (a1 - a0) ** 2
        compare(case, case.sut(c.calc_parallel_bias_cut, b0, b1, tsq), want, tau, tol, "pair", **wit)
        compare(case, case.sut(c.calc_parallel_bias_cut_fast, b0, b1, tsq, b0b1, eta), want, tau, tol, "pair, fast form", **wit)
        case.hit("core:parallel", 2)
        s2 = (a0 + a1) ** 2
        if s2 > 1e-4:  # these forms divide by the squared sum of the offsets
            t2 = tol + 1e-13 * n / s2
            compare(case, case.sut(c.calc_parallel_bias_cut_fast2, b0, b1, tsq, b0b1, eta), want, tau, t2, "pair, second fast form", **wit)
            compare(case, case.sut(c.calc_parallel_bias_cut_old, b0, b1, tsq), want, tau, t2, "pair, old form", **wit)
            case.hit("agree", 2)
        compare(case, case.sut(c.calc_parallel_bias_cut_fast_old, b0, b1, tsq, b0b1, eta), want, tau, 1e-5, "pair, old fast form", **wit)
        case.hit("agree")
        case.signature("core", n, round(a0, 1), round(a1, 1))
    case.show(**wit)


ENTRY = {
    "bias": ("calc_single_or_parallel",), "central": ("calc_single_or_parallel_central_cut",), "q": ("calc_single_or_parallel_q",),
}


def calc(case):
    """The dispatching calculator: truthful status and optimal parameters."""
    r = case.rng
    n = dim(case)
    par = bool(r.random() < 0.85)
    c = case.sut(EllCalc, n)
    c.use_parallel_cut = par
    for _ in range(10):
        tsq = scale(case) ** 2 * float(r.uniform(0.5, 2))
        lattice = r.random() < 0.25
        if lattice:
            tsq = 4.0 ** int(r.integers(-8, 9))
        tau = math.sqrt(tsq)
        kind = str(r.choice(E.KINDS))
        a0, a1 = (E.lattice_alphas if lattice else E.rand_alphas)(case, n, kind)
        b0, b1 = a0 * tau, None if a1 is None else a1 * tau
        beta, form = E.beta_form(case, b0, b1, exact=True)
        lo, hi = E.retained(kind, beta, tau, par)
        pair = lo > -math.inf
        if E.degenerate(lo, hi) or not E.asserted_domain(kind, a0, a1, lo, hi, pair):
            continue
        if kind == "central" and pair and abs(a1) < 1e-3:
            continue
        direct = None
        if kind == "bias" and b1 is None:
            direct = lambda: c.calc_bias_cut(b0, tsq)  # noqa: E731
        elif kind == "bias" and par:
            direct = lambda: c.calc_parallel(b0, b1, tsq)  # noqa: E731
        elif kind == "q" and b1 is None:
            direct = lambda: c.calc_bias_cut_q(b0, tsq)  # noqa: E731
        elif kind == "q" and par:
            direct = lambda: c.calc_parallel_q(b0, b1, tsq)  # noqa: E731
        wit = dict(n=n, tsq=tsq, kind=kind, offset=beta, form=form, alpha=[a0, a1], parallel=par)
        answers = [case.sut(getattr(c, ENTRY[kind][0]), beta, tsq)]
        if direct is not None:
            answers.append(case.sut(direct))
        for st, res in answers:
            wit["status"] = getattr(st, "name", str(st))
            ok = E.expected_status(n, kind, lo, hi, pair)
            case.check(st in ok, "status does not say what the cut does", allowed=sorted(s.name for s in ok), **wit)
            case.check((res is not None) == (st == CutStatus.Success), "parameters and status disagree", got=res, **wit)
            case.hit("calc:" + st.name)
            if res is not None:
                a, b = max(lo, -1.0), min(hi, 1.0)
                if hi > 1.0:
                    continue  # leading plane misses the set: see the containment property
                want = model(n, tau, a, b)
                tol = 1e-10 * n / (b - a) ** 2
                if want[3] > 1.0 + 1e-12:
                    compare(case, res, want, tau, tol, "parameters are not those of the smallest ellipsoid", **wit)
            case.signature("calc", n, kind, form, st.name, round(max(min(lo, 3), -3), 1), round(max(min(hi, 3), -3), 1))


def coincident(case):
    """Two planes that coincide: the limit of thin slabs."""
    r = case.rng
    n = dim(case)
    c = case.sut(EllCalc, n)
    for _ in range(6):
        tsq = scale(case) ** 2 * float(r.uniform(0.5, 2))
        a = float(r.choice([0.0, r.uniform(-0.95, 0.95), r.choice([-1, 1]) * 10.0 ** r.uniform(-9, -1)]))
        tau = math.sqrt(tsq)
        b = a * tau
        ways = {
            "calc_single_or_parallel": (b, b), "calc_single_or_parallel_q": [b, b],
            "calc_parallel": None, "calc_parallel_q": None, "calc_single_or_parallel_central_cut": (0.0, 0.0),
        }
        for m, beta in ways.items():
            st, res = case.sut(getattr(c, m), b, b, tsq) if beta is None else case.sut(getattr(c, m), beta, tsq)
            z, s = (1.0, 0.0) if "central" in m else (1.0 - a * a, b)
            wit = dict(n=n, tsq=tsq, alpha=a, method=m, status=st, got=res)
            case.hit("coincident")
            case.check(st == CutStatus.Success and res is not None, "two planes that coincide inside the set leave a disc", **wit)
            case.check(abs(res[0] - s) <= 1e-9 * tau * n and abs(res[1] - 1.0) <= 1e-9 * n and z * (1 - 1e-9) <= res[2] <= z * n / (n - 1.0) * (1 + 1e-9),
                       "parameters are not those of the disc between coinciding planes", **wit)
        core_ = c.helper
        got = [case.sut(core_.calc_parallel_bias_cut, b, b, tsq), case.sut(core_.calc_parallel_bias_cut_fast, b, b, tsq, b * b, tsq + n * b * b)]
        for g in got:
            case.check(abs(g[0] - b) <= 1e-9 * tau * n and abs(g[1] - 1.0) <= 1e-9 * n and abs(g[2] - (1 - a * a) * n / (n - 1.0)) <= 1e-9 * n,
                       "parameters are not those of the disc between coinciding planes", n=n, tsq=tsq, alpha=a, got=g)
        case.signature("coincident", n, round(a, 1))


def edges(case):
    """Offsets a hair to either side of a decision boundary."""
    r = case.rng
    n = int(r.choice([2, 3, 4, 4, 5, 8, 16, 64, 1024]))
    c = case.sut(EllCalc, n)
    tsq = 4.0 ** int(r.integers(-20, 21))
    tau = math.sqrt(tsq)
    kind, a0, a1, want, d = E.edge_offsets(case, n)
    beta, form = E.beta_form(case, a0 * tau, None if a1 is None else a1 * tau, exact=True)
    answers = [case.sut(getattr(c, ENTRY[kind][0]), beta, tsq)]
    if kind != "central":
        name = ("calc_bias_cut" if a1 is None else "calc_parallel") + ("_q" if kind == "q" else "")
        answers.append(case.sut(getattr(c, name), *([a0 * tau] if a1 is None else [a0 * tau, a1 * tau]), tsq))
    for st, res in answers:
        case.hit("edge")
        case.check(st == want and (res is not None) == (want == CutStatus.Success), "status does not say what the cut does",
                   n=n, tsq=tsq, kind=kind, alpha=[a0, a1], offset=beta, status=st, expected=want, distance=d)
    case.signature("edge", n, kind, a0 > 0, a1 is None, want.name, int(-math.log2(d)))


def serial(case):
    """A calculator keeps no memory: the same question gets the same answer."""
    r = case.rng
    n = dim(case)
    c, fresh = case.sut(EllCalc, n), None
    qs = []
    for _ in range(12):
        tsq = scale(case) ** 2
        tau = math.sqrt(tsq)
        kind = str(r.choice(E.KINDS))
        a0, a1 = E.rand_alphas(case, n, kind)
        lo, hi = E.retained(kind, a0 if a1 is None else [a0, a1], 1.0)
        if not E.asserted_domain(kind, a0, a1, lo, hi, a1 is not None) or E.degenerate(lo, hi):
            continue
        qs.append((ENTRY[kind][0], a0 * tau if a1 is None else (a0 * tau, a1 * tau), tsq))
        if r.random() < 0.4:  # a neighbouring question: same offsets, other size, or the reverse
            f = 1.0 + 10.0 ** float(r.uniform(-8, 0))
            h = a0 * tau if a1 is None else (a0 * tau, a1 * tau)
            if r.random() < 0.7:
                tsq2, c0, c1 = tsq * f * f, a0 / f, None if a1 is None else a1 / f
            else:
                tsq2, c0, c1 = tsq, a0 / f, None if a1 is None else a1 / f
                h = c0 * tau if c1 is None else (c0 * tau, c1 * tau)
            lo, hi = E.retained(kind, c0 if c1 is None else [c0, c1], 1.0)
            if E.asserted_domain(kind, c0, c1, lo, hi, c1 is not None) and not E.degenerate(lo, hi):
                qs.append((ENTRY[kind][0], h, tsq2))
                case.hit("neighbours")
    first = [case.sut(getattr(case.sut(EllCalc, n), m), b, t) for m, b, t in qs]
    for i in list(range(len(qs))) + list(r.permutation(len(qs))):
        m, b, t = qs[i]
        fresh = case.sut(EllCalc, n)
        for who in (c, fresh):
            st, res = case.sut(getattr(who, m), b, t)
            case.hit("serial")
            same = st == first[i][0] and (res is None) == (first[i][1] is None)
            if same and res is not None:
                same = bool(np.allclose(res, first[i][1], rtol=1e-12, atol=0))
            case.check(same, "the same question got another answer later", question=qs[i], first=first[i], later=(st, res))
    case.signature("serial", n, len(qs))


FAMILIES = {
    "core": (core, 4000, 40000),
    "calc": (calc, 6000, 60000),
    "serial": (serial, 1000, 6000),
    "edges": (edges, 4000, 30000),
    "coincident": (coincident, 800, 8000),
}
