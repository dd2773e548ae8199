"""C12: bisection keeps its bracket, converges, and returns an accepted value."""

from decimal import Decimal
from fractions import Fraction

import numpy as np

from checks.c07 import options
from ellalgo.cutting_plane import bsearch
from ellalgo.ell_config import Options  # noqa: F401
from vlib import trace as T

PROPERTY = "C12"
VOLUME = 3
ANCHORS = ["cutting_plane.py"]
RULE = (
    "scripted and threshold oracles over int/float/numpy/Fraction/Decimal brackets, dyadic "
    "brackets that meet the tolerance exactly, arbitrary answer sequences, faults; distinct = "
    "(number type, probes, stop cause, answer pattern)"
)
REQUIRED = {
    "stop:narrow": 400, "stop:limit": 150, "probe": 20000, "threshold-found": 300,
    "none-accepted": 100, "faults-out": 100, "exact-tolerance": 50, "extreme-bracket": 200, "zero-probes": 30,
}


def bracket(case):
    r = case.rng
    kind = str(r.choice(["float", "int", "np", "npint", "frac", "dec", "mixed", "f32"]))
    if kind in ("int", "npint"):
        lo = int(r.integers(-100, 1000) if r.random() < 0.8 else r.integers(-(10**6), 10**12))
        hi = lo + int(2 ** r.uniform(0, 20))
        if r.random() < 0.4:
            lo, hi = 0, int(2 ** r.integers(1, 30))
        if kind == "npint":
            lo, hi = np.int64(lo), np.int64(hi)
        return kind, lo, hi
    if kind in ("float", "np") and r.random() < 0.12:  # near the ends of the number range
        s = float(r.choice([1e308, 1e300, 1e-300, 1e-308, 1e154, 1e16]))
        a, b = sorted(s * r.uniform(0.05, 1.7, 2))
        sg = float(r.choice([1.0, 1.0, -1.0]))
        lo, hi = (a, b) if sg > 0 else (-b, -a)
        case.hit("extreme-bracket")
        return kind, (np.float64 if kind == "np" else float)(lo), (np.float64 if kind == "np" else float)(hi)
    s = 10.0 ** r.choice([0, 0, 2, -3, 6])
    if r.random() < 0.1:
        s = case.hot(1e-12, 1e12, s)
    lo = float(s * r.normal()) if r.random() < 0.6 else 0.0
    hi = lo + float(s * r.uniform(0.01, 4))
    if kind == "np":
        return kind, np.float64(lo), np.float64(hi)
    if kind == "f32":
        lo = np.float32(abs(lo))
        return kind, lo, np.float32(lo + np.float32(s))
    if kind == "frac":
        lo = Fraction(int(r.integers(-50, 50)), int(r.integers(1, 20)))
        return kind, lo, lo + Fraction(int(r.integers(1, 500)), int(r.integers(1, 20)))
    if kind == "dec":
        return kind, Decimal(str(round(lo, 4))), Decimal(str(round(hi, 4) + 0.001))
    if kind == "mixed":
        return kind, int(np.floor(lo)), float(hi)
    return kind, lo, hi


def run(case, exact=False):
    r = case.rng
    if exact:
        kind = str(r.choice(["float", "frac", "np"]))
        lo, hi = float(r.integers(-8, 8)), None
        hi = lo + 2.0 ** int(r.integers(0, 8))
        tol = 2.0 ** int(r.integers(-8, 3))  # met exactly by a half-width
        m = 60
        if kind == "frac":
            lo, hi = Fraction(lo), Fraction(hi)
        elif kind == "np":
            lo, hi = np.float64(lo), np.float64(hi)
    else:
        kind, lo, hi = bracket(case)
        integer = kind in ("int", "npint")
        tol = float(r.choice([1e-20, 1e-9, 1e-6, 1e-3, 0.1, 0.5, 1.0, 3.0, 1e9]))
        if r.random() < 0.1 or (not integer and float(hi - lo) > 1e100 or float(hi - lo) < 1e-100):
            tol = float(hi - lo) * 10.0 ** float(r.uniform(-14, 0.3))  # relative to the bracket
        if r.random() < 0.08 and 1e-100 < float(hi - lo) < 1e100:
            tol = case.hot(1e-30, 1e12, tol)
        if integer and r.random() < 0.6:
            tol = float(r.choice([0.5, 0.75, 1.0]))
        m = int(r.choice([0, 1, 2, 5, 10, 40, 100, 400]))
        if r.random() < 0.06:
            m = case.hot_int(0, 3000, m)
    integer = kind in ("int", "npint")
    default = r.random() < 0.05
    if default:
        m, tol = 2000, 1e-20
    T_up = type(hi)
    mode = str(r.choice(["threshold", "random", "all", "none"], p=[0.55, 0.25, 0.1, 0.1]))
    if mode == "threshold":
        f = float(r.choice([r.uniform(0, 1), 0.0, 1.0, 0.5]))
        if integer:
            thr = int(lo) + int(round((int(hi) - int(lo)) * f))
        elif kind in ("frac", "dec"):
            thr = lo + (hi - lo) * (Fraction if kind == "frac" else Decimal)(str(round(f, 6)))
        else:
            thr = min(float(lo) + (float(hi) - float(lo)) * f, float(hi))
    sc = T.Script(case, m + 5)
    st = {"lo": lo, "hi": hi, "acc": None, "n": 0, "ans": 0}
    ansform = str(r.choice(["bool", "npbool"]))

    def half(a, b):
        return (b - a) / 2

    class Om:
        def assess_bs(self, g):
            sc.event("assess")
            case.hit("probe")
            a, b = st["lo"], st["hi"]
            case.check(type(g) is T_up, "the value tried changed its type", got=type(g).__name__, bracket=T_up.__name__)
            case.check(
                not half(a, b) < tol, "a narrow enough bracket was searched further", lo=a, hi=b, tol=tol
            )
            case.check(a <= g <= b, "tried a value outside the bracket", value=g, lo=a, hi=b)
            mid = float(a) / 2 + float(b) / 2
            slack = 1.0 if integer else 4 * (np.finfo(np.float32).eps if kind == "f32" else 2.3e-16) * max(
                abs(float(a)), abs(float(b))
            )
            case.check(
                abs(float(g) - mid) <= slack + 2e-323, "the value tried is not the middle of the bracket", value=g, lo=a, hi=b
            )
            st["n"] += 1
            if mode == "threshold":
                ans = bool(g >= thr)
            elif mode == "random":
                ans = bool(r.random() < 0.5)
            else:
                ans = mode == "all"
            if ans:
                st["hi"] = st["acc"] = g
            else:
                st["lo"] = g
            st["ans"] = (st["ans"] * 2 + ans) % 1024
            if st["n"] == m:
                sc.done = True
            return np.bool_(ans) if ansform == "npbool" else ans

    om = Om()
    opt, oname = options(case, m, tol)

    def call():
        if default:
            return bsearch(om, (lo, hi))
        form = r.choice(["tuple", "list"])
        return bsearch(om, (lo, hi) if form == "tuple" else [lo, hi], opt)

    # how many probes will there be?
    if r.random() < 0.1 and m > 0 and not half(lo, hi) < tol:
        sc.fault_at, sc.fault = 1 if r.random() < 0.5 else 2, T.make_fault(case)
        if sc.fault_at == 2 and (m < 2 or half(lo, hi) / 2 < 2 * tol or integer):
            sc.fault_at = 1
        T.expect_fault(case, sc, call)
        case.signature("fault", kind, sc.fault_at, type(sc.fault).__name__)
        return
    x, it = case.sut(call)
    case.check(not isinstance(it, bool) and it == st["n"], "iteration count is not the number of values tried", got=it, tried=st["n"])
    case.check(
        type(x) is T_up and x == st["hi"], "the result is not the upper end of the final bracket", got=x, upper=st["hi"]
    )
    if st["acc"] is None:
        case.hit("none-accepted")
        case.check(x == hi, "nothing was accepted, yet the given upper end was not returned", got=x)
    narrow = half(st["lo"], st["hi"]) < tol
    case.check(narrow or it == m, "stopped before the bracket was narrow", lo=st["lo"], hi=st["hi"], tol=tol, iterations=it, limit=m)
    case.hit("stop:narrow" if narrow else "stop:limit")
    if st["n"] == 0:
        case.hit("zero-probes")
    if exact:
        w = float(half(lo, hi))
        case.hit("exact-tolerance", int(any(w / 2**k == tol for k in range(60))))
    if mode == "threshold":
        case.hit("threshold-found")
        case.check(x >= thr, "the result lies below the threshold", got=x, threshold=thr)
        if narrow:
            lim = 2 * tol
            gap = float(x - thr) if not isinstance(x, Decimal) else float(x - Decimal(thr))
            if kind == "f32":
                lim += 1e-6 * abs(float(hi))
            case.check(gap <= lim * (1 + 1e-9), "the result is not within tolerance of the threshold", got=x, threshold=thr, tol=tol)
            if integer and 0.5 < tol <= 1.0 and thr > lo:
                case.check(
                    float(x - thr) < 2, "integer search is off by more than the tolerance", got=x, threshold=thr
                )
    case.signature(kind, mode, st["n"], narrow, st["ans"])
    case.show(type=kind, bracket=[str(lo), str(hi)], tol=tol, limit=m, probes=st["n"], result=str(x))


def general(case):
    run(case)


def exact(case):
    run(case, exact=True)


FAMILIES = {
    "general": (general, 40000, 300000),
    "exact": (exact, 8000, 40000),
}
