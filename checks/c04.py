"""C04: the reported status and size are truthful, failed cuts change nothing."""

import numpy as np

from vlib import ellipsoid as E
from vlib.ellipsoid import CutStatus

PROPERTY = "C04"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py"]
RULE = (
    "status, reported size and before/after state of every update of random, lattice and "
    "boundary-straddling histories; distinct = (space, dim, kind, form, status, cell, flags)"
)
REQUIRED = {
    "decided:Success": 1500,
    "decided:NoSoln": 150,
    "decided:NoEffect": 150,
    "size": 2500,
}


def truthful(case, space, e):
    exp = E.expected_status(e.n, e.kind, e.lo, e.hi, e.pair)
    case.check(
        e.status in exp,
        "status does not describe what the cut leaves",
        expected=sorted(s.name for s in exp),
        **e.brief(),
    )
    if len(exp) == 1:
        case.hit("decided:" + e.status.name)
    if e.status != CutStatus.Success:
        case.check(
            np.array_equal(e.o0.xc, e.o1.xc) and E.same_shape(e.o0, e.o1),
            "a cut that was not applied changed the ellipsoid",
            **e.brief(),
        )
    g = np.asarray(e.g, dtype=float)
    w = float(g @ e.o0.P @ g)
    case.hit("size")
    case.check(
        abs(e.tsq - w) <= (1e-9 + 50 * E.EPS * e.o0.cond) * w
        and abs(e.tsq - e.tau**2) <= 1e-9 * w,
        "reported size is not the squared half-width along the cut",
        reported=e.tsq,
        actual=w,
        **e.brief(),
    )


def _hist(case, hi, steps, lattice=False):
    cls = str(case.rng.choice(["Ell", "EllStable"]))
    n = min(E.pick_dim(case, hi), 20 if cls == "EllStable" else 40)
    fl = E.any_flags(case)
    E.history(case, cls, n, steps, lambda s, e: truthful(case, s, e), fl, lattice)
    case.show(space=cls, n=n, flags=fl, events=dict(case.counts))


def histories(case):
    _hist(case, 40, int(case.rng.integers(3, 9)))


def lattice(case):
    _hist(case, 12, 2, True)


def wide(case):
    """High dimension, observed along a few directions."""
    E.wide(case, E.wide_truthful)


FAMILIES = {
    "edges": (E.edges, 3000, 20000),
    "histories": (histories, 2600, 20000),
    "lattice": (lattice, 2000, 12000),
    "wide": (wide, 120, 1200),
    "unusable": (E.unusable, 200, 800),
    "flat": (E.flat, 300, 3000),
    "axes": (E.axis_family(E.axis_truthful), 2000, 16000),
}
