"""C02: every accepted cut shrinks the ellipsoid by the guaranteed factor."""

import math

import numpy as np

from vlib import ellipsoid as E
from vlib.ellipsoid import CutStatus

PROPERTY = "C02"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py"]
RULE = (
    "volume of the observed ellipsoid before/after every update of random, lattice and long "
    "histories; distinct = (space, dim, kind, offset form, status, offset cell, flags)"
)
REQUIRED = {"deep-shrink": 1500, "shallow-shrink": 150, "long-run": 100}


def logvol(o):
    C = o.P / np.outer(o.sd, o.sd)
    s, ld = np.linalg.slogdet(C)
    return 0.5 * ld + float(np.sum(np.log(o.sd))) if s > 0 else math.nan


def shrink(case, space, e):
    v0, v1 = logvol(e.o0), logvol(e.o1)
    n = e.n
    tol = 1e-10 + 200 * n * E.EPS * max(e.o0.cond, e.o1.cond)
    d = v1 - v0
    if e.status == CutStatus.Success:
        if e.hi <= 0.0:  # deep or central leading cut
            case.hit("deep-shrink")
            bound = -1.0 / (2.0 * (n + 1))
        else:
            case.hit("shallow-shrink")
            bound = 0.0
        case.check(
            d <= bound + tol,
            "accepted cut shrank the volume by less than guaranteed",
            log_volume_ratio=d,
            bound=bound,
            **e.brief(),
        )
    else:
        case.check(abs(d) <= tol, "a cut that was not applied changed the volume", d=d, **e.brief())


def _hist(case, hi, steps, lattice=False):
    cls = str(case.rng.choice(["Ell", "EllStable"]))
    n = min(E.pick_dim(case, hi), 20 if cls == "EllStable" else 40)
    fl = E.any_flags(case)
    E.history(case, cls, n, steps, lambda s, e: shrink(case, s, e), fl, lattice)
    case.show(space=cls, n=n, flags=fl, events=dict(case.counts))


def histories(case):
    _hist(case, 40, int(case.rng.integers(3, 9)))


def lattice(case):
    _hist(case, 10, 2, True)


def long_run(case):
    """Many cuts in a row: the total shrinkage is at least the sum of the guarantees."""
    r = case.rng
    cls = str(r.choice(["Ell", "EllStable"]))
    n = int(r.choice([2, 3, 4, 5, 7, 10, 12]))
    val = 10.0 ** r.choice([0, 3, -3, 12, -12])
    space = case.sut(E.SPACES[cls], float(val), np.zeros(n))
    if r.random() < 0.2:
        space.no_defer_trick = True
    v0 = vp = logvol(E.observe(case, space))
    total = int(r.integers(60, 400))
    applied = 0
    for k in range(total):
        g = r.normal(size=n)
        # cut the longest direction now and then so that the shape stays well conditioned
        if k % 2 == 0:
            o = E.observe(case, space)
            w, V = np.linalg.eigh(o.P)
            g = V[:, -1] * float(r.choice([-1, 1])) + 0.05 * r.normal(size=n)
        tau = math.sqrt(E.width2(case, space, g))
        a = float(r.choice([0.0, 0.0, r.uniform(0, 0.4)]))
        kind = str(r.choice(["bias", "q", "central", "pair"]))
        if kind == "pair":
            st = E.apply_cut(case, space, "bias", (g, (a * tau, (a + r.uniform(0.2, 1)) * tau)))
        else:
            st = E.apply_cut(case, space, kind, (g, 0.0 if kind == "central" else a * tau))
        case.check(st == CutStatus.Success, "a cut through the set was not applied", st=st)
        applied += 1
        if k % 20 == 19 or k == total - 1:
            o = E.observe(case, space)
            v = logvol(o)
            case.hit("long-run")
            case.check(
                v - v0 <= -applied / (2.0 * (n + 1)) + 1e-6,
                "volume after a run of cuts exceeds the guarantee",
                log_ratio=v - v0,
                cuts=applied,
                space=cls,
                n=n,
            )
            vp = v
            if vp < -n * 250 or o.cond > 1e9:
                break
    case.signature(cls, n, total // 50)


def wide(case):
    """High dimension, observed along a few directions."""
    E.wide(case, E.wide_shrinks)


FAMILIES = {
    "histories": (histories, 2400, 20000),
    "lattice": (lattice, 1000, 6000),
    "long_run": (long_run, 160, 1500),
    "wide": (wide, 160, 1600),
    "unusable": (E.unusable, 100, 400),
    "flat": (E.flat, 150, 1500),
    "axes": (E.axis_family(E.axis_shrinks), 2000, 16000),
}
