"""C01: a cut never discards a point that satisfies it."""

import math

import numpy as np

from vlib.core import Violation  # noqa: F401
from vlib import ellipsoid as E
from vlib.ellipsoid import CutStatus

PROPERTY = "C01"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py"]
RULE = (
    "random and lattice histories of cuts on both spaces (all kinds, single/pair, every "
    "depth class); distinct = (space, dim, kind, offset form, status, offset cell, flags)"
)
REQUIRED = {"contained": 2000, "tracer": 2000, "nosoln-empty": 50}
UNREACHED_OK = ()


def contained(case, space, e):
    """Support function of the new set dominates that of what had to be kept."""
    r, o0, o1 = case.rng, e.o0, e.o1
    g = np.asarray(e.g, dtype=float)
    lo, hi = e.lo, e.hi
    if e.status == CutStatus.NoSoln:
        gap = min(hi, 1.0) - max(lo, -1.0)
        case.check(
            lo > hi or gap <= 1e-9,
            "reported that nothing is left although the cut keeps part of the set",
            gap=gap,
            **e.brief(),
        )
        case.hit("nosoln-empty")
    if lo > hi or max(lo, -1.0) > min(hi, 1.0):
        return
    n = e.n
    L = np.linalg.cholesky(o0.P / np.outer(o0.sd, o0.sd) + 1e-14 * np.eye(n))
    U = r.normal(size=(24, n))
    # normals near the contact set: the rims where the planes meet the set
    gw = L.T @ (g * o0.sd)
    gw = gw / np.linalg.norm(gw)
    for k, t in enumerate(
        (max(lo, -1.0), min(hi, 1.0)) * 4
    ):
        q = U[k] - gw * (gw @ U[k])
        q /= np.linalg.norm(q)
        U[k] = t * gw + math.sqrt(max(1 - t * t, 0.0)) * q
    U[8], U[9] = gw, -gw
    H = np.linalg.solve(L.T, U.T).T / o0.sd
    hk = E.support(o0, g, lo, hi, H)
    w0 = np.sqrt(np.einsum("ij,jk,ik->i", H, o0.P, H))
    w1 = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", H, o1.P, H), 0.0))
    he = H @ (o1.xc - o0.xc) + w1
    slack = E.tol_for(o0, o1) * w0 + 8 * E.EPS * np.abs(H) @ (np.abs(o0.xc) + np.abs(o1.xc))
    bad = he < hk - slack
    case.hit("contained", len(H))
    case.check(
        not bad.any(),
        "a point satisfying the cut was discarded",
        direction=H[int(np.argmax((hk - he) / w0))],
        lost_fraction_of_width=float(np.max((hk - he) / w0)),
        **e.brief(),
    )


def _hist(case, dims, steps, lattice=False, classes=("Ell", "EllStable")):
    cls = str(case.rng.choice(classes))
    n = E.pick_dim(case, dims[1]) if dims[0] is None else int(case.rng.integers(*dims))
    if cls == "EllStable":
        n = min(n, 20)
    fl = E.any_flags(case)
    E.history(case, cls, n, steps, lambda s, e: contained(case, s, e), fl, lattice)
    case.show(space=cls, n=n, flags=fl, counts=dict(case.counts))


def histories(case):
    _hist(case, (None, 40), int(case.rng.integers(3, 9)))


def lattice(case):
    _hist(case, (2, 10), 2, lattice=True)


def tracer(case):
    """Long solve-like history: a marked point that satisfies every cut survives."""
    r = case.rng
    cls = str(r.choice(["Ell", "EllStable"]))
    n = int(r.choice([2, 2, 3, 4, 5, 6, 8, 10]))
    size = 10.0 ** r.choice([0, 0, 2, -2, 4, -6])
    x0 = size * r.normal(size=n)
    space = case.sut(E.SPACES[cls], float(size**2), x0.copy())
    fl = E.any_flags(case)
    if fl.get("no_defer"):
        space.no_defer_trick = True
    d = r.normal(size=n)
    mark = x0 + size * d / np.linalg.norm(d) * r.uniform(0, 0.999)
    rad = size * 10.0 ** r.uniform(-5, -2)  # keep clear of rounding
    steps = int(r.integers(40, 200))
    for step in range(steps):
        xc = np.array(space.xc(), dtype=float)
        g = r.normal(size=n)
        # width along g from a throw-away copy
        tau = math.sqrt(E.width2(case, space, g))
        if not tau > 0 or tau < 20 * rad * np.linalg.norm(g):
            break
        if g @ (mark - xc) > 0:
            g = -g
        s = -float(g @ (mark - xc))  # >= 0: any offset <= s keeps the mark
        s = max(min(s, tau) - rad * np.linalg.norm(g), 0.0)
        kind = str(r.choice(["bias", "central", "q", "bias2", "q2", "q2s"]))
        b0 = s * float(r.choice([0.0, 1.0, r.uniform(0, 1)]))
        if kind == "central":
            st = E.apply_cut(case, space, "central", (g, 0.0))
        elif kind == "bias":
            st = E.apply_cut(case, space, "bias", (g, b0))
        elif kind == "q":
            b = b0 if r.random() < 0.6 else -tau * float(r.uniform(0, 1.2))
            st = E.apply_cut(case, space, "q", (g, b))
        else:
            top = -float(g @ (mark - xc)) + rad * np.linalg.norm(g)
            b1 = top + (tau - top) * float(r.choice([0.0, r.uniform(0, 1), 1.3])) if tau > top else top
            if kind == "q2s":
                b0 = -tau * float(r.uniform(0, 1.0))
            if b1 - b0 < 1e-5 * tau:
                continue
            st = E.apply_cut(case, space, "bias" if kind == "bias2" else "q", (g, [b0, b1]))
        case.check(
            st != CutStatus.NoSoln,
            "reported that nothing is left although a marked point satisfies every cut",
            step=step,
            mark=mark,
            cut=[g, b0],
            kind=kind,
        )
        if step % 3 == 0 or step == steps - 1:
            o = E.observe(case, space)
            if o.cond > 1e8:
                break
            m = E.maha(o.P, mark - o.xc)
            case.hit("tracer")
            case.check(
                m <= 1.0 + 1e-6 + 1e-12 * o.cond,
                "a marked point that satisfied every cut of the history was lost",
                mark=mark,
                norm=m,
                step=step,
                space=cls,
                kind=kind,
            )
    case.signature(cls, n, step, st.name, tuple(fl))


def wide(case):
    """High dimension, observed along a few directions."""
    E.wide(case, E.wide_contained)


FAMILIES = {
    "histories": (histories, 2400, 20000),
    "lattice": (lattice, 1200, 8000),
    "tracer": (tracer, 400, 3000),
    "wide": (wide, 160, 1600),
    "unusable": (E.unusable, 150, 600),
    "flat": (E.flat, 300, 3000),
    "axes": (E.axis_family(E.axis_contained), 2000, 16000),
}
