"""Scripted doubles for the solvers, and the online monitor they report to.

The doubles implement only the published interfaces (SearchSpace, Oracle*).  Every
call is an event; the monitor checks it against the trace specification when it
happens.  Centers and sizes are unique values, so each event names its cause.
"""

import copy
import math

import numpy as np

from ellalgo.ell_config import CutStatus, Options
from ellalgo.ell_typing import SearchSpace

from .core import InjectedFault, Violation


class FixedOptions(Options):
    def __init__(self, max_iters, tolerance):
        self.max_iters = max_iters
        self.tolerance = tolerance


class PlainOptions:
    """Only the documented attributes, not derived from the package's class."""

    def __init__(self, max_iters, tolerance):
        self.max_iters = max_iters
        self.tolerance = tolerance
        self.verbose = False


class Script:
    """What the doubles will answer at each step, drawn in advance."""

    def __init__(self, case, limit):
        self.case = case
        self.log = []
        self.calls = 0
        self.fault_at = None
        self.fault = None
        self.done = False
        self.limit = limit

    def event(self, kind, **data):
        case = self.case
        self.calls += 1
        case.hit("ev:" + kind)
        case.check(not self.done, "the solver kept calling after it had to stop", event=kind)
        self.log.append((kind, data))
        if self.fault_at is not None and self.calls == self.fault_at:
            self.done = True
            raise self.fault
        case.check(
            self.calls <= self.limit, "the solver does not stop", calls=self.calls
        )


def same_cut(a, b):
    try:
        if a is b:
            return True
        if len(a) != len(b):
            return False
        ba, bb = np.asarray(a[1], dtype=float), np.asarray(b[1], dtype=float)
        return np.array_equal(np.asarray(a[0]), np.asarray(b[0])) and ba.shape == bb.shape and np.array_equal(ba, bb)
    except Exception:  # noqa: BLE001
        return False


class SpyList(list):
    pass


class MockSpace(SearchSpace):
    """Scripted search space.  in_place: the center array is reused between steps,
    as a space is free to do."""

    def __init__(self, script, n, centers, statuses, sizes, in_place):
        self.s = script
        self.n = n
        self.centers, self.statuses, self.sizes = centers, statuses, sizes
        self.in_place = in_place
        self.k = 0  # updates so far
        self.buf = np.array(centers[0], dtype=float)
        self.size = 0.0  # as documented: nothing measured before the first cut
        self.updates = []

    def center(self):
        return np.array(self.centers[min(self.k, len(self.centers) - 1)], dtype=float)

    def xc(self):
        if self.in_place:
            return self.buf
        return self.center()

    def tsq(self):
        return self.size

    def _update(self, method, cut):
        self.s.event("update", method=method, cut=cut, k=self.k)
        i = self.k
        st = self.statuses[i]
        self.size = self.sizes[i]
        self.updates.append((method, cut, st))
        self.k += 1
        if st == CutStatus.Success:
            self.buf[:] = self.center()
        else:  # center stays
            self.centers.insert(self.k, self.centers[self.k - 1])
        return st

    def update_bias_cut(self, cut):
        return self._update("bias", cut)

    def update_central_cut(self, cut):
        return self._update("central", cut)

    def update_q(self, cut):
        return self._update("q", cut)

    def set_xc(self, x):
        self.s.event("set_xc")


def random_sizes(case, k, tol, cross):
    """Sizes >= tol before index `cross`, below it there (None: never)."""
    r = case.rng
    out = []
    texture = str(r.choice(["any", "any", "any", "constant", "falling", "rising", "cycle"]))
    base = (abs(tol) + 1e-300) * float(1 + 10 ** r.uniform(-3, 6))
    for i in range(k):
        if texture != "any" and i != cross:
            f = {"constant": 1.0, "falling": 1.0 + 1.0 / (i + 1), "rising": 1.0 + 1e-3 * i, "cycle": 1.0 + i % 3}[texture]
            out.append(base * f)
            continue
        if cross is not None and i == cross:
            u = r.random()
            if tol <= 0:
                out.append(tol - 1.0)
            elif u < 0.4:
                out.append(float(np.nextafter(tol, 0.0)))
            elif u < 0.6:
                out.append(0.0)
            else:
                out.append(tol * float(r.uniform(0, 1)))
        else:
            u = r.random()
            if u < 0.25:
                out.append(tol)  # equal to the tolerance is not below it
            elif u < 0.4:
                out.append(float(np.nextafter(tol, math.inf)))
            elif tol < 0:
                out.append(float(r.uniform(0, 1)))
            else:
                out.append(tol * float(1 + 10 ** r.uniform(-3, 6)) + 1e-300)
    return out


def long_limit(case):
    """(iteration limit, steps that will be scripted): long runs, and limits never reached."""
    r = case.rng
    lits = [k for k in case.lits["ints"] if 61 <= k <= 40000]
    u = r.random()
    if u < 0.35:
        m = int(10 ** r.uniform(2.5, 4.4))
    elif u < 0.6 and lits:
        m = int(r.choice(lits)) + int(r.choice([-1, 0, 1, 2, 40]))
    elif u < 0.75:
        m = int(2 ** r.integers(8, 15)) + int(r.choice([-1, 0, 1]))
    else:
        m = int(r.choice([10**6, 2**31, 2**31 - 1, 10**12, 2**63 - 1]))
        case.hit("limit-never-reached")
        return m, int(10 ** r.uniform(0, 3.5))
    case.hit("long-run")
    return m, m


# faults that are also of a kind a handler might be written for
FAULTS = [
    type("Boom" + b.__name__, (InjectedFault, b), {})
    for b in (
        ValueError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError, FloatingPointError, OverflowError,
        ArithmeticError, RuntimeError, TypeError, AttributeError, IndexError, KeyError, LookupError,
        NotImplementedError, RecursionError, TimeoutError, RuntimeWarning, MemoryError, OSError,
    )
]


def make_fault(case):
    r = case.rng

    k = int(r.integers(-3, len(FAULTS)))
    return (FAULTS[k] if k >= 0 else InjectedFault)("injected")


def expect_fault(case, script, fn):
    """fn() must let the injected fault out as it was raised."""
    try:
        out = fn()
    except InjectedFault as e:
        case.check(e is script.fault, "an exception came out altered", got=repr(e))
        case.hit("faults-out")
        return
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("an exception was replaced by another", got=repr(e)) from e
    raise Violation("an exception from the oracle or the space was swallowed", returned=out)


def copy_of(x):
    return copy.deepcopy(x)


def random_centers(case, k, n):
    """Centers of a scripted space: they may repeat, cycle, or differ in size by decades."""
    r = case.rng
    texture = str(r.choice(["any", "any", "any", "runs", "cycle", "still", "decades", "whole"]))
    if texture == "still":
        c = r.normal(size=n)
        return [c.copy() for _ in range(k)]
    if texture == "cycle":
        c = [r.normal(size=n) for _ in range(int(r.integers(2, 4)))]
        return [c[i % len(c)].copy() for i in range(k)]
    if texture == "whole":
        return [r.integers(-2, 3, n).astype(float) for _ in range(k)]
    out = []
    for i in range(k):
        if texture == "runs" and i and r.random() < 0.7:
            out.append(out[-1].copy())
        else:
            out.append(r.normal(size=n) * (10.0 ** float(r.uniform(-15, 15)) if texture == "decades" else 1.0))
    return out


def random_flags(case, k, p):
    """Booleans, independent or in runs of any length (long droughts, long streaks)."""
    r = case.rng
    if r.random() < 0.6 or not 0.0 < p < 1.0:
        return [bool(r.random() < p) for _ in range(k)]
    out = []
    now = bool(r.random() < 0.5)
    while len(out) < k:
        out += [now] * int(10 ** r.uniform(0, math.log10(k + 2)))
        now = not now
    return out[:k]


def cut_source(case, n):
    """A function giving cuts; in some runs it repeats itself."""
    r = case.rng
    mode = str(r.choice(["new", "new", "new", "repeat", "cycle"]))
    kept = [random_cut(case, n) for _ in range(1 if mode == "repeat" else 3)]
    count = [0]

    def nxt():
        count[0] += 1
        if mode == "new" or r.random() < 0.02:
            return random_cut(case, n)
        return copy_of(kept[count[0] % len(kept)])

    return nxt


def random_cut(case, n):
    """Any cut an oracle may return: the solvers pass it on as it is."""
    r = case.rng
    g = r.normal(size=n) if r.random() < 0.85 else r.integers(-3, 4, n)
    u = r.random()
    if u < 0.5:
        b = float(r.normal()) if r.random() < 0.8 else 0.0
        b = [b, np.float64(b), int(round(b)), [b], (b,), np.array([b])][int(r.choice(6, p=[0.6, 0.1, 0.1, 0.1, 0.05, 0.05]))]
    else:
        lo = 0.0 if r.random() < 0.4 else float(r.normal())
        hi = math.inf if r.random() < 0.05 else lo + float(np.abs(r.normal()))
        b = [(lo, hi), [lo, hi], np.array([lo, hi])][int(r.integers(3))]
    return (g, b) if r.random() < 0.9 else [g, b]
