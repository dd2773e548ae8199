"""C03: the updated set is the smallest ellipsoid containing what the cut keeps."""

import numpy as np

from vlib import ellipsoid as E
from vlib.ellipsoid import CutStatus

PROPERTY = "C03"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py"]
RULE = (
    "each accepted update of random/lattice histories compared with the minimum-volume "
    "ellipsoid computed independently (S-procedure) from the observed pre-state; distinct = "
    "(space, dim, kind, offset form, status, offset cell, flags)"
)
REQUIRED = {"compared:single": 1000, "compared:pair": 600, "unchanged": 100}


def optimal(case, space, e):
    g = np.asarray(e.g, dtype=float)
    if e.status != CutStatus.Success:
        case.hit("unchanged")
        E.compare_obs(
            case, e.o1, e.o0.xc, e.o0.P, E.tol_for(e.o0), "an unapplied cut moved the set", **e.brief()
        )
        return
    if e.hi > 1.0 + 1e-12 or not E.max_gap_ok(e):
        # a plane that misses the set: only containment and no growth are promised
        case.hit("plane-misses")
        return
    x1, P1, (t0, A2, B2, mu) = E.predict(e.o0, g, e.lo, e.hi)
    if mu < 1.0 + 1e-7 and e.hi > 0:
        return  # within rounding of "nothing can shrink"
    tol = E.tol_for(e.o0, e.o1)
    # a thin slab squeezes the set: errors of the pre-state are magnified
    tol *= 1.0 + 1.0 / A2
    case.hit("compared:pair" if e.lo > -1.0 else "compared:single")
    E.compare_obs(case, e.o1, x1, P1, tol, "not the smallest ellipsoid", **e.brief())


def _hist(case, hi, steps, lattice=False):
    cls = str(case.rng.choice(["Ell", "EllStable"]))
    n = min(E.pick_dim(case, hi), 20 if cls == "EllStable" else 40)
    fl = E.any_flags(case)
    E.history(case, cls, n, steps, lambda s, e: optimal(case, s, e), fl, lattice)
    case.show(space=cls, n=n, flags=fl, events=dict(case.counts))


def histories(case):
    _hist(case, 40, int(case.rng.integers(3, 9)))


def lattice(case):
    _hist(case, 10, 2, True)


def deep_history(case):
    """Longer histories in low dimension: the state reached by many updates."""
    cls = str(case.rng.choice(["Ell", "EllStable"]))
    n = int(case.rng.integers(2, 6))
    E.history(case, cls, n, 40, lambda s, e: optimal(case, s, e), E.any_flags(case))


def wide(case):
    """High dimension, observed along a few directions."""
    E.wide(case, E.wide_optimal)


FAMILIES = {
    "histories": (histories, 2400, 20000),
    "lattice": (lattice, 1200, 8000),
    "deep_history": (deep_history, 150, 1200),
    "wide": (wide, 160, 1600),
    "shadow": (E.shadow, 300, 3000),
    "unusable": (E.unusable, 100, 400),
    "flat": (E.flat, 150, 1500),
    "axes": (E.axis_family(E.axis_optimal), 2000, 16000),
}
