"""Black-box observation of an ellipsoid search space, and the reference model.

Only the public interface is used: xc(), tsq(), set_xc(), the three update
methods, and deepcopy (which the package itself relies on).  The squared
half-width of the set along g is what tsq() reports after any cut with gradient
g, so the shape matrix P of {x : (x-xc)' P^-1 (x-xc) <= 1} is recovered by
polarization on throw-away copies.
"""

import copy
import decimal
import math

import numpy as np

from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus
from ellalgo.ell_stable import EllStable

from .core import Violation

EPS = np.finfo(float).eps
SPACES = {"Ell": Ell, "EllStable": EllStable}
KINDS = ("bias", "central", "q")


def width2(case, space, g):
    """Squared half-width of the current ellipsoid along g (public API only)."""
    c = copy.deepcopy(space)
    base = getattr(type(space), "BASE", None)  # a recording subclass: probe unrecorded
    if base is not None:
        c.__class__ = base
    case.sut(c.update_central_cut, (np.array(g, dtype=float), 0.0))
    case.counts["probes"] += 1
    return float(c.tsq())


class Obs:
    """Observed state: centre and shape."""

    __slots__ = ("n", "xc", "P", "cond", "ok", "lmin", "sd")

    def __init__(self, xc, P):
        self.xc, self.P = xc, P
        self.n = len(xc)
        d = np.sqrt(np.abs(np.diag(P)))
        self.sd = d
        # equilibrated condition number: scaling of coordinates is harmless
        C = P / np.outer(d, d) if np.all(d > 0) else P
        w = np.linalg.eigvalsh(C) if np.all(np.isfinite(C)) else np.array([np.nan])
        self.lmin = w[0]
        self.ok = bool(np.isfinite(w).all() and w[0] > 0)
        self.cond = float(w[-1] / w[0]) if self.ok else math.inf


def observe(case, space):
    xc = np.array(space.xc(), dtype=float)
    n = len(xc)
    I = np.eye(n)
    d = np.array([width2(case, space, I[i]) for i in range(n)])
    case.check(
        bool(np.all(np.isfinite(xc)) and np.all(np.isfinite(d)) and np.all(d > 0)),
        "ellipsoid is no longer a finite full-dimensional set",
        xc=xc,
        axis_widths_sq=d,
    )
    s = np.sqrt(d)
    P = np.diag(d).copy()
    for i in range(n):
        for j in range(i):
            # equilibrated polarization keeps both terms of the same size
            gp = I[i] / s[i] + I[j] / s[j]
            P[i, j] = P[j, i] = (width2(case, space, gp) - 2.0) / 2.0 * s[i] * s[j]
    o = Obs(xc, P)
    # |corr| beyond 1 by more than rounding means an indefinite shape
    case.check(
        o.lmin > -1e-7, "ellipsoid shape is not positive definite", eig=o.lmin, P=P
    )
    return o


def same_shape(o, o2, tol=1e-12):
    return bool(np.abs((o2.P - o.P) / np.outer(o.sd, o.sd)).max() <= tol)


# ------------------------------------------------------------------ the model
def retained(kind, beta, tau, use_parallel=True):
    """What a cut keeps, as an interval [a, b] of the normalised coordinate
    t = g'(x-xc)/tau (the ellipsoid spans [-1, 1]); None: contradictory pair."""
    if np.isscalar(beta):
        b0, b1 = float(beta), None
    else:
        b0 = float(beta[0])
        b1 = float(beta[1]) if len(beta) > 1 and use_parallel else None
    if kind == "central":
        b0 = 0.0
    hi = -b0 / tau
    lo = -math.inf if b1 is None else -b1 / tau
    return lo, hi


def minvol(n, a, b):
    """Smallest ellipsoid containing {|u|<=1, a<=t<=b}, -1<=a<b<=1.

    Every minimiser has the form |u|^2 - 1 + lam (t-a)(t-b) <= 0 (S-procedure);
    mu = 1+lam solves a quadratic.  Returns (t0, A2, B2, mu): centre along the
    axis, squared semi-axes along and across.  mu <= 1: nothing can shrink.
    """
    S2 = (a + b) ** 2
    p = a * b
    d2 = (b - a) ** 2 / 4.0
    c1 = (a * a + b * b) / 2.0 - 1.0
    mu = (-c1 + math.sqrt(c1 * c1 + (n * n - 1.0) * d2 * S2)) / (2.0 * (n - 1.0) * d2)
    lam = mu - 1.0
    t0 = lam * (a + b) / (2.0 * mu)
    R2 = 1.0 - lam * p + lam * lam * S2 / (4.0 * mu)
    return t0, R2 / mu, R2, mu


def predict(o, g, lo, hi):
    """Model of a successful update from the observed state o."""
    Pg = o.P @ g
    tau = math.sqrt(g @ Pg)
    t0, A2, B2, mu = minvol(o.n, max(lo, -1.0), min(hi, 1.0))
    x1 = o.xc + t0 * Pg / tau
    P1 = B2 * o.P - (B2 - A2) * np.outer(Pg, Pg) / (tau * tau)
    return x1, P1, (t0, A2, B2, mu)


def support(o, g, lo, hi, H):
    """max h'(x - xc) over the part of the ellipsoid with lo<=t<=hi; rows of H."""
    Pg = o.P @ g
    tau2 = g @ Pg
    tau = math.sqrt(tau2)
    hp = H @ Pg / tau
    tot = np.maximum(np.einsum("ij,jk,ik->i", H, o.P, H), 0.0)
    hq = np.sqrt(np.maximum(tot - hp * hp, 0.0))
    t = np.clip(hp / np.sqrt(tot), max(lo, -1.0), min(hi, 1.0))
    return hp * t + hq * np.sqrt(np.maximum(1.0 - t * t, 0.0))


def expected_status(n, kind, lo, hi, pair, margin=1e-9):
    """Set of statuses a truthful report may carry (several near a boundary)."""
    S, N, E = CutStatus.Success, CutStatus.NoSoln, CutStatus.NoEffect
    out = set()
    # is anything left?
    a, b = max(lo, -1.0), min(hi, 1.0)
    if lo > hi:
        return {N}
    gap = b - a
    if gap < -margin:
        return {N}
    if gap <= margin:
        out.add(N)
    # can anything shrink?  1 + n a b > 0 with the planes that meet the set
    if pair and lo > -1.0:
        e = 1.0 + n * lo * hi
        deep = hi <= 0.0
        outside = hi > 1.0
    else:
        e = 1.0 - n * hi  # single: 1 + n*alpha
        deep = hi <= 0.0
        outside = False
        if lo < -1.0 - margin and pair:
            pass
    if deep:
        out.add(S)
        if e < margin:
            out.add(E)
    elif outside:
        out |= {S, E}
    elif e > margin:
        out.add(S)
    elif e < -margin:
        out.add(E)
    else:
        out |= {S, E}
    if kind == "central" and not pair:
        return {S}
    return out


def tol_for(o0, o1=None, base=1e-8):
    c = o0.cond if o1 is None else max(o0.cond, o1.cond)
    return base + 200.0 * EPS * c


def maha(P, d):
    """sqrt(d' P^-1 d), equilibrated."""
    s = np.sqrt(np.abs(np.diag(P)))
    C = P / np.outer(s, s)
    z = d / s
    return math.sqrt(max(float(z @ np.linalg.solve(C, z)), 0.0))


# ------------------------------------------------------------------ workloads
def pick_dim(case, hi=40):
    r = case.rng
    u = r.random()
    if u < 0.70:
        n = int(r.integers(2, 7))
    elif u < 0.90:
        n = int(r.integers(7, 13))
    elif u < 0.96:
        n = int(r.integers(13, 41))
    else:
        c = sorted(
            {k + d for k in case.lits["ints"] for d in (-1, 0, 1) if 2 <= k + d <= 40}
        )
        n = int(r.choice(c)) if c else 2
    if r.random() < 0.06:
        n = case.hot_int(2, hi, n)
    return max(2, min(n, hi))


def make_space(case, cls, n, scale=None):
    """A search space and a note of how it was stated."""
    r = case.rng
    if scale is None:
        scale = 10.0 ** r.choice([0, 0, 0, 1, 2, -1, -2, 4, -4, 8, -8])
        if r.random() < 0.06:
            scale = 10.0 ** r.uniform(-40, 40)
        elif r.random() < 0.08:
            scale = case.hot(1e-40, 1e40, scale)
    form = r.choice(["float", "int", "array", "list", "tuple", "intlist", "npfloat", "npint"])
    spread = r.choice([0.0, 0.5, 1.5, 3.0, 7.0], p=[0.23, 0.23, 0.23, 0.23, 0.08])
    if form == "float":
        val = float(scale * r.uniform(0.5, 2.0))
    elif form == "npfloat":
        val = np.float64(scale * r.uniform(0.5, 2.0))
        if 1e-30 < scale < 1e30 and r.random() < 0.4:
            val = np.float32(val)
    elif form == "npint":
        val = np.int64(max(1, min(round(scale), 10**15)))
    elif form == "int":
        val = int(max(1, round(scale)))
    elif form == "intlist":
        val = [int(v) for v in r.integers(1, 50, n)]
    else:
        v = scale * 10.0 ** r.uniform(-spread, spread, n)
        val = {"array": lambda: v, "list": v.tolist, "tuple": lambda: tuple(v.tolist())}[
            form
        ]()
    size = math.sqrt(float(np.mean(np.asarray(val, dtype=float))))
    cform = r.choice(["zeros", "array", "far", "int", "list"], p=[0.25, 0.4, 0.15, 0.1, 0.1])
    if spread == 7.0 and form in ("array", "list", "tuple"):
        size = np.sqrt(np.asarray(val, dtype=float))  # keep the center within reach of every axis
        cform = "array" if cform in ("far", "int") else cform
        case.counts["long-axes"] += 1
    if cform == "zeros":
        xc = np.zeros(n)
    elif cform == "int":
        xc = r.integers(-5, 6, n)
    elif cform == "list":
        xc = (size * r.normal(size=n)).tolist()
    else:
        xc = size * r.normal(size=n) * (100.0 if cform == "far" else 1.0)
    space = case.sut(cls, val, xc)
    return space, {"val": val, "xc": np.array(xc, dtype=float), "form": str(form), "long": np.ndim(size) > 0}


def rand_grad(case, n, prev=None, sd=None):
    r = case.rng
    k = r.choice(
        ["normal", "axis", "sparse", "int", "prev", "near", "f32", "scaled", "sd", "graded"],
        p=[0.26, 0.10, 0.12, 0.12, 0.08, 0.04, 0.04, 0.12, 0.06, 0.06],
    )
    if k in ("prev", "near") and prev is None:
        k = "normal"
    if k == "sd" and sd is None:
        k = "normal"
    if k == "axis":
        g = np.zeros(n)
        g[int(r.integers(n))] = float(r.choice([-1.0, 1.0, 2.0, -0.5]))
    elif k == "sparse":
        g = r.normal(size=n) * (r.random(n) < 0.5)
        if not g.any():
            g[int(r.integers(n))] = 1.0
    elif k == "int":
        g = r.integers(-3, 4, n)
        if not g.any():
            g[int(r.integers(n))] = 1
    elif k == "prev":
        g = prev * float(r.choice([-1.0, 1.0, 3.0]))
    elif k == "near":
        g = prev + 1e-2 * np.linalg.norm(prev) * r.normal(size=n)
    elif k == "f32":
        g = r.normal(size=n).astype(np.float32)
    elif k == "scaled":
        if r.random() < 0.4:
            g = r.normal(size=n)
            g *= case.hot(1e-50, 1e50, 1.0) / float(r.choice([np.linalg.norm(g), np.abs(g).max(), 1.0]))
        else:
            g = r.normal(size=n) * 10.0 ** (r.uniform(-8, 8) if r.random() < 0.7 else r.uniform(-50, 50))
    elif k == "sd":
        g = r.normal(size=n) / sd
    elif k == "graded":  # some coordinates hardly matter
        g = r.normal(size=n) * 10.0 ** (r.uniform(-7, 0, n) * (r.random(n) < 0.6))
    else:
        g = r.normal(size=n)
    if r.random() < 0.15:
        g.setflags(write=False)
    elif r.random() < 0.1:
        big = np.zeros(2 * n, dtype=g.dtype)
        big[::2] = g
        g = big[::2]
    return g


def in_units(g, sd):
    """The same direction, of a size that suits the set (no overflow in between)."""
    g = np.asarray(g, dtype=float)
    return g / (float(np.abs(g).max()) * float(np.median(sd)))


def _gap(case):
    r = case.rng
    if r.random() < 0.08:
        return case.hot(1e-3, 1.0, 0.5)
    if r.random() < 0.06:
        return 10.0 ** float(r.uniform(-4.8, -3))
    return float(
        r.choice([r.uniform(0, 1), 10.0 ** r.uniform(-3, 0), 10.0 ** r.uniform(-2, 0.3)])
    )


def rand_alphas(case, n, kind):
    """Offsets in units of tau: (alpha0, alpha1 or None)."""
    r = case.rng
    dic = [f for f in case.lits["floats"] if 0 < abs(f) < 1]

    def deep():
        u = r.random()
        if u < 0.12:
            return 0.0
        if u < 0.22:
            return 10.0 ** r.uniform(-12, -2)
        if u < 0.34:
            return 1.0 - 10.0 ** r.uniform(-5, -1)
        if u < 0.40 and dic:
            return min(abs(float(r.choice(dic))) * (1 + 0.01 * r.normal()), 0.999)
        if u < 0.44:
            return case.hot(1e-16, 0.999, 0.5)
        return float(r.uniform(0, 1))

    def beyond():
        return 1.0 + float(10.0 ** r.uniform(-6, 1))

    pair = r.random() < 0.5
    if not pair:
        if kind == "central":
            return float(r.choice([0.0, 0.0, 0.0, 0.3, 2.0])), None
        u = r.random()
        if u < 0.10:
            return beyond(), None
        if kind == "q" and u < 0.55:
            v = r.random()
            if v < 0.45:
                return -float(r.uniform(0, 1.0 / n)), None
            if v < 0.6:
                return -1.0 / n * (1 + float(r.choice([-1, 1])) * 10.0 ** r.uniform(-7, -1)), None
            return -float(r.uniform(1.0 / n, 1.6)), None
        return deep(), None
    if kind == "central":
        u = r.random()
        a1 = (
            float(r.uniform(0.001, 1.0))
            if u < 0.7
            else beyond() if u < 0.82 else -(10.0 ** float(r.uniform(-11, 0.4))) if u < 0.94 else 1 - 10.0 ** r.uniform(-6, -1)
        )
        return float(r.choice([0.0, 0.0, 0.0, -0.2, 0.3])), a1
    u = r.random()
    if u < 0.40:  # both sides of a slab, leading cut deep
        a0 = min(deep(), 0.999)
        return a0, a0 + _gap(case)
    if u < 0.48:
        a0 = deep()
        return a0, beyond() + a0
    if u < 0.55:  # contradictory
        a1 = float(r.uniform(-1, 1))
        return a1 + 10.0 ** float(r.uniform(-12 if r.random() < 0.4 else -4, 0)), a1
    if u < 0.60:  # wholly outside
        a0 = beyond()
        return a0, a0 + _gap(case)
    if u < 0.65:  # wholly outside on the other side
        a1 = -beyond()
        return a1 - _gap(case), a1
    if u < 0.73:  # both negative: the far side is the deep one
        a1 = -min(deep(), 0.999)
        return a1 - _gap(case), a1
    # shallow leading cut
    v = r.random()
    if v < 0.25:
        a = float(r.uniform(0, 1 / math.sqrt(n)))
        return -a, a
    if v < 0.5:
        a0 = -float(r.uniform(0, 1))
        lim = min(1.0, 1.0 / (n * abs(a0) + 1e-300))
        return a0, lim * float(r.uniform(0.05, 1.0)) * (1 - 1e-6)
    if v < 0.6:
        a0 = -float(r.uniform(0.1, 1))
        return a0, 1.0 / (n * abs(a0)) * (1 + float(r.choice([-1, 1])) * 10.0 ** r.uniform(-7, -1))
    a0 = -float(r.uniform(0, 1.4))
    a1 = float(r.uniform(0, 1.0))
    return a0, a1


def beta_form(case, b0, b1, exact=False):
    """The offsets in one of the forms a caller may use (exact: the same value; else
    possibly rounded to single precision)."""
    r = case.rng
    if not exact and r.random() < 0.05 and all(b is None or 1e-30 < abs(b) < 1e30 for b in (b0, b1)):
        if b1 is None:
            return (np.float32(b0), "f32") if r.random() < 0.7 else (np.array([b0], dtype=np.float32), "f32array1")
        return np.array([b0, b1], dtype=np.float32), "f32array"
    if b0 == 0.0 and b1 is None and r.random() < 0.1:
        return r.choice([np.int64(0), np.int32(0)]), "npint0"
    if b1 is None:
        f = r.choice(["float", "np", "list1", "tuple1", "array1", "int0"])
        if f == "int0" and b0 == 0.0:
            return 0, f
        if f == "np":
            return np.float64(b0), f
        if f == "list1":
            return [b0], f
        if f == "tuple1":
            return (b0,), f
        if f == "array1":
            return np.array([b0]), f
        return float(b0), "float"
    f = r.choice(["list", "tuple", "array", "nptuple"])
    if f == "list":
        return [b0, b1], f
    if f == "tuple":
        return (b0, b1), f
    if f == "array":
        return np.array([b0, b1]), f
    return (np.float64(b0), np.float64(b1)), f


def age(case, space, n, kmax=1200):
    """A long unobserved prelude that keeps the set round: cuts through (or near) the
    center along an orthonormal basis in turn.  Reaches states (accumulated scale,
    counters, caches) that short histories do not, at no cost in conditioning."""
    r = case.rng
    Q = np.eye(n) if r.random() < 0.5 else np.linalg.qr(r.normal(size=(n, n)))[0]
    # stay within 110 decades of squared size, and above 1e-95: the deferred factor takes
    # 50 decades more and the update squares what is left
    f = math.log10(n / (n + 1.0)) + 0.5 * (n - 1) * math.log10(n * n / (n * n - 1.0))
    room = min(110.0, max(10.0, 95.0 + math.log10(min(width2(case, space, Q[:, i]) for i in range(n)))))
    kmax = max(21, min(kmax, int(-room * n / (2.0 * f))))
    K = int(r.integers(20, max(21, kmax)))
    if r.random() < 0.3:
        K = max(20, case.hot_int(20, kmax, K))
    K -= K % n
    mode = str(r.choice(["central", "bias", "q", "mix"]))
    for k in range(K):
        g = Q[:, k % n] * (1.0 if (k // n) % 2 else -1.0)
        kind = mode if mode != "mix" else KINDS[k % 3]
        st = apply_cut(case, space, kind, (g, 0.0))
        case.check(st == CutStatus.Success, "a cut through the center was not applied", step=k, status=st)
    case.sut(space.set_xc, r.normal(size=n) * math.sqrt(width2(case, space, Q[:, 0])))
    case.hit("aged", K)
    return K


class Event:
    """One observed update."""

    __slots__ = (
        "cls", "n", "kind", "g", "beta", "form", "a0", "a1", "lo", "hi", "tau",
        "pair", "o0", "o1", "status", "tsq", "flags", "step",
    )

    def brief(self):
        return {
            "space": self.cls,
            "n": self.n,
            "kind": self.kind,
            "gradient": np.asarray(self.g, dtype=float),
            "offset": self.beta,
            "offset_form": self.form,
            "offset_over_tau": [self.a0, self.a1],
            "status": getattr(self.status, "name", str(self.status)),
            "step": self.step,
            "flags": self.flags,
            "center_before": self.o0.xc if self.o0 else None,
            "shape_before": self.o0.P if self.o0 else None,
            "center_after": self.o1.xc if self.o1 else None,
            "shape_after": self.o1.P if self.o1 else None,
        }


def apply_cut(case, space, kind, cut):
    m = {
        "bias": space.update_bias_cut,
        "central": space.update_central_cut,
        "q": space.update_q,
    }[kind]
    st = case.sut(m, cut)
    case.counts["updates"] += 1
    case.check(isinstance(st, CutStatus), "update did not report a status", got=st)
    return st


class Buffers:
    """A caller that states every cut in the same arrays and overwrites them afterwards."""

    def __init__(self, case, n):
        self.case = case
        self.g, self.pair, self.one = np.zeros(n), np.zeros(2), [0.0, 0.0]

    def state(self, g, beta):
        if isinstance(g, np.ndarray) and g.dtype == float:
            self.g[:] = g
            g = self.g
        if isinstance(beta, np.ndarray) and beta.shape == (2,) and beta.dtype == float:
            self.pair[:] = beta
            beta = self.pair
        elif isinstance(beta, list) and len(beta) == 2:
            self.one[:] = beta
            beta = self.one
        self.case.counts["reused-buffers"] += 1
        return g, beta

    def scribble(self):
        self.g[:] = self.case.rng.normal(size=len(self.g))
        self.pair[:] = self.one[:] = (-9.0, 9.0)


def degenerate(lo, hi):
    """Keeps (almost) nothing of positive volume: outside every property."""
    a, b = max(lo, -1.0), min(hi, 1.0)
    return lo <= hi and -1e-7 < b - a < 2e-6


def asserted_domain(kind, a0, a1, lo, hi, pair):
    """update_bias_cut takes a single cut only when it is not shallow; a pair whose
    second plane misses the ellipsoid is such a single cut."""
    if kind != "bias":
        return True
    if not pair or lo <= -1.0 + 1e-12:
        return hi <= 0.0
    return True


def lattice_grad(case, n):
    """Gradient for which every quantity of the first update is exact in binary."""
    g = np.zeros(n)
    k = 4 if n >= 4 and case.rng.random() < 0.3 else 1
    idx = case.rng.permutation(n)[:k]
    g[idx] = case.rng.choice([-1.0, 1.0], k) * 2.0 ** int(case.rng.integers(-3, 4))
    return g


def lattice_alphas(case, n, kind):
    """Offsets that hit the decision boundaries exactly."""
    r = case.rng
    spec = [k / 8.0 for k in range(-12, 13)] + [-1.0 / n, 1.0 / n, -2.0 / n, 0.0, 1.0, -1.0]
    a0 = float(r.choice(spec))
    if r.random() < 0.35:
        return a0, None
    if r.random() < 0.3 and a0 != 0.0:
        return a0, -1.0 / (n * a0)  # the curvature boundary
    return a0, float(r.choice(spec))


def edge_offsets(case, n):
    """Offsets a hair to either side of a decision boundary, exact in binary (n a power of
    two for the boundaries that depend on it): (kind, alpha0, alpha1, status)."""
    r = case.rng
    d = 2.0 ** -int(r.integers(8, 41))
    S, N, Z = CutStatus.Success, CutStatus.NoSoln, CutStatus.NoEffect
    kind = str(r.choice(["bias", "q"]))
    out = [
        (kind, 1.0 + d, None, N), (kind, 1.0 - d, None, S),
        (kind, 1.0 + d, 1.0 + 4 * d, N), (kind, -1.0 - 4 * d, -1.0 - d, N),
        (kind, 1.0 + d, 4.0, N), (kind, 0.5 + d, 0.5, N), (kind, -0.25 + d, -0.25, N), (kind, d, 0.0, N), (kind, 0.0, -d, N),
        ("central", 0.0, -d, N), ("central", 0.0, d, S), ("central", 0.0, 1.0 - d, S), ("central", 0.0, 1.0 + d, S),
        (kind, 0.5, 1.0 - d, S), (kind, 0.5, 1.0 + d, S), (kind, 0.5, 0.5 + 2.0**-10, S), (kind, -1.0 + d, -0.5, S), (kind, -1.0 - d, -0.5, S),
    ]
    if n & (n - 1) == 0:
        out += [("q", -1.0 / n * (1 + d), None, Z), ("q", -1.0 / n * (1 - d), None, S), ("q", -1.0, None, Z), ("q", -1.0 - d, None, Z)]
        if n >= 4:
            out += [(kind, -0.5, 2.0 / n * (1 + d), Z), (kind, -0.5, 2.0 / n * (1 - d), S), (kind, -2.0 / n * (1 + d), 0.5, Z), (kind, -2.0 / n * (1 - d), 0.5, S)]
    return out[int(r.integers(len(out)))] + (d,)


def edges(case):
    """The status of a first cut next to a decision boundary."""
    r = case.rng
    cls = str(r.choice(list(SPACES)))
    n = int(r.choice([2, 3, 4, 4, 5, 7, 8, 16]))
    val = 4.0 ** int(r.integers(-6, 7))
    g = lattice_grad(case, n)
    tau = math.sqrt(val * float(g @ g))
    kind, a0, a1, want, d = edge_offsets(case, n)
    beta, form = beta_form(case, a0 * tau, None if a1 is None else a1 * tau, exact=True)
    x0 = r.integers(-3, 4, n).astype(float)
    s = case.sut(SPACES[cls], val, x0.copy())
    if r.random() < 0.3:
        s.no_defer_trick = True
    st = apply_cut(case, s, kind, (g.copy(), beta))
    wit = dict(space=cls, n=n, kind=kind, alpha=[a0, a1], offset=beta, scale=val, gradient=g, status=st.name, expected=want.name, distance=d)
    case.hit("edge:" + want.name)
    case.check(st == want, "status does not describe what the cut leaves", **wit)
    moved = not np.array_equal(np.asarray(s.xc(), float), x0)
    if want != CutStatus.Success:
        case.check(not moved, "a cut that was not applied moved the center", **wit)
    case.signature("edge", cls, n, kind, a0 > 0, a1 is None, want.name, int(-math.log2(d)))


def refused(case, space, n):
    """A cut without a direction, which must leave no trace (that it is refused is C24)."""
    kind = str(case.rng.choice(KINDS))
    m = {"bias": space.update_bias_cut, "central": space.update_central_cut, "q": space.update_q}[kind]
    try:
        m((np.zeros(n), float(case.rng.choice([0.0, 1.0]))))
    except Exception:  # noqa: BLE001
        case.counts["refused-cut"] += 1


def history(case, cls_name, n, steps, on_event, flags=None, lattice=False):
    """Drive one space through random cuts, calling on_event(Event) per update."""
    r = case.rng
    if lattice:
        val = 4.0 ** int(r.integers(-3, 4))
        space = case.sut(SPACES[cls_name], val, np.zeros(n))
        how = {"val": val, "xc": np.zeros(n), "long": False}
    else:
        space, how = make_space(case, SPACES[cls_name], n)
    flags = dict(flags or {})
    if flags.get("no_defer"):
        space.no_defer_trick = True
    use_par = not flags.get("no_parallel")
    if not use_par:
        space.helper.use_parallel_cut = False
    o = observe(case, space)
    d = np.asarray(how["val"], dtype=float) * np.ones(n)
    case.check(
        bool(np.abs(o.P / np.sqrt(np.outer(d, d)) - np.eye(n)).max() < 1e-11)
        and bool(np.array_equal(o.xc, how["xc"])),
        "the initial ellipsoid is not the one that was asked for",
        **how,
    )
    prev = last = None
    buf = Buffers(case, n) if r.random() < 0.25 else None
    if buf:
        flags["buffers"] = True
    aged = not lattice and r.random() < 0.08
    if aged:
        flags["aged"] = age(case, space, n, 1200 if n <= 8 else 300)
        o = observe(case, space)
    # some histories keep to one kind of cut and to a few offsets, stated plainly
    mood = None if lattice or r.random() > 0.3 else str(r.choice(KINDS)) if r.random() < 0.7 else "any"
    palette = []
    if mood:
        k0 = mood if mood != "any" else "q"
        palette = [(0.0, None), rand_alphas(case, n, k0), rand_alphas(case, n, k0)]
        if k0 == "q":
            palette.append((-float(r.uniform(0, 1.0 / n)), None))
        flags["mood"] = True
    for step in range(steps):
        if r.random() < 0.05 and not lattice:
            x = o.xc + 0.1 * o.sd * r.normal(size=n)
            size = float(space.tsq())
            case.sut(space.set_xc, x.copy())
            o2 = observe(case, space)
            case.check(
                np.array_equal(o2.xc, x) and same_shape(o, o2) and float(space.tsq()) == size,
                "set_xc must move the center and nothing else",
                size_before=size, size_after=float(space.tsq()), asked=x, got=o2.xc,
            )
            o = o2
        if r.random() < 0.03:  # continue with a copy, as the bisection adaptor does
            space = case.sut(copy.deepcopy, space)
            case.counts["continued-on-a-copy"] += 1
        if not lattice and r.random() < 0.03:  # the settings may be changed at any time
            if r.random() < 0.5:
                space.no_defer_trick = not space.no_defer_trick
            else:
                use_par = not use_par
                space.helper.use_parallel_cut = use_par
            flags = dict(flags, switched=True)
            case.counts["settings-switched"] += 1
        if r.random() < 0.02:
            refused(case, space, n)
        kind = str(r.choice(KINDS, p=[0.4, 0.2, 0.4]))
        if mood in KINDS:
            kind = mood
        for _ in range(60):
            if lattice:
                g = lattice_grad(case, n)
                a0, a1 = lattice_alphas(case, n, kind)
            else:
                g = rand_grad(case, n, prev, o.sd)
                if aged or how["long"]:
                    g = in_units(g, o.sd)
                a0, a1 = rand_alphas(case, n, kind)
                if mood and r.random() < 0.7:
                    a0, a1 = palette[int(r.integers(len(palette)))]
            tau = math.sqrt(width2(case, space, g))
            if not lattice and r.random() < 0.04:  # a cut of a given absolute size
                want = case.hot(1e-60, 1e60, 1.0)
                k = want / float(r.choice([tau, tau, abs(a0) * tau or tau]))
                if 1e-60 < k * float(np.abs(g).max()) < 1e60 and 1e-60 < k * tau < 1e60:
                    g = np.asarray(g, dtype=float) * k
                    tau = math.sqrt(width2(case, space, g))
            b0, b1 = a0 * tau, None if a1 is None else a1 * tau
            if a1 is not None and a1 >= 1.0 and r.random() < 0.15:
                b1 = math.inf  # a second plane that is not there
            beta, form = beta_form(case, b0, b1)
            if mood and r.random() < 0.8:
                beta, form = (b0, "plain") if b1 is None else ((b0, b1), "plain pair")
            if last and r.random() < 0.04:  # word for word the same cut again
                kind, g, beta, form = last
                tau = math.sqrt(width2(case, space, g))
                a0 = float(beta if np.isscalar(beta) else beta[0]) / tau
                a1 = float(beta[1]) / tau if not np.isscalar(beta) and len(beta) > 1 else None
            lo, hi = retained(kind, beta, tau, use_par)
            pair = lo > -math.inf
            if degenerate(lo, hi):
                continue
            if not asserted_domain(kind, a0, a1, lo, hi, pair):
                continue
            break
        else:
            return space, o
        e = Event()
        e.cls, e.n, e.kind, e.g, e.beta, e.form = cls_name, n, kind, g, beta, form
        e.a0, e.a1, e.lo, e.hi, e.tau, e.pair = a0, a1, lo, hi, tau, pair
        e.o0, e.o1, e.flags, e.step = o, None, flags, step
        e.status = apply_cut(case, space, kind, buf.state(g, beta) if buf else (g, beta))
        e.tsq = float(space.tsq())
        if buf:
            buf.scribble()
        e.o1 = observe(case, space)
        case.counts["status:" + e.status.name] += 1
        case.signature(
            cls_name, n, kind, form, e.status.name,
            round(max(min(lo, 3), -3), 1), round(max(min(hi, 3), -3), 1),
            tuple(sorted(flags)),
        )
        on_event(space, e)
        o = e.o1
        prev = np.asarray(g, dtype=float)
        last = (kind, g, beta, form)
        if o.cond > 1e9:
            break
    return space, o


class Wide:
    """One update in high dimension, observed along a few directions only."""

    __slots__ = ("cls", "n", "kind", "beta", "lo", "hi", "pair", "tau", "status", "tsq", "H", "w0", "cov", "w1",
                 "shift", "xmag", "flags")

    def brief(self):
        return {k: getattr(self, k) for k in ("cls", "n", "kind", "beta", "lo", "hi", "status", "flags")}


def wide(case, judge, cls=None):
    """Histories in dimension 13..300.  Widths along chosen directions (and their
    covariance with the gradient, by polarization) before and after each cut."""
    r = case.rng
    cls = cls or str(r.choice(["Ell", "Ell", "EllStable"]))
    top = 300 if cls == "Ell" else 110
    lit = sorted({k + d for j in case.lits["ints"] for k in (j, math.isqrt(abs(j))) for d in (-1, 0, 1)
                  if 13 <= k + d <= top})
    u = r.random()
    n = int(r.integers(13, 70)) if u < 0.3 else int(r.integers(60, top + 1)) if u < 0.75 or not lit else int(r.choice(lit))
    if r.random() < 0.1:
        n = case.hot_int(13, top, n)
    elif cls == "EllStable" and n > 60 and r.random() < 0.5:
        n = int(r.integers(13, 60))
    space, how = make_space(case, SPACES[cls], n)
    flags = any_flags(case)
    if flags.get("no_defer"):
        space.no_defer_trick = True
    use_par = not flags.get("no_parallel")
    if not use_par:
        space.helper.use_parallel_cut = False
    unit = math.sqrt(float(np.mean(np.asarray(how["val"], dtype=float))))
    for _ in range(int(r.integers(0, 5))):
        apply_cut(case, space, "central", (r.normal(size=n) / unit, 0.0))
    sd = np.full(n, unit)
    for step in range(int(r.integers(1, 4))):
        e = Wide()
        e.cls, e.n, e.flags = cls, n, flags
        e.kind = kind = str(r.choice(KINDS))
        for _ in range(60):
            g = in_units(rand_grad(case, n, None, sd), sd)
            a0, a1 = rand_alphas(case, n, kind)
            e.tau = tau = math.sqrt(width2(case, space, g))
            b1 = None if a1 is None else math.inf if a1 > 1.0 and r.random() < 0.15 else a1 * tau
            e.beta, _ = beta_form(case, a0 * tau, b1)
            e.lo, e.hi = retained(kind, e.beta, tau, use_par)
            e.pair = e.lo > -math.inf
            if not degenerate(e.lo, e.hi) and asserted_domain(kind, a0, a1, e.lo, e.hi, e.pair):
                break
        else:
            return
        H, w0, cov = [], [], []

        def add(h):
            w = width2(case, space, h)
            s = math.sqrt(w)
            z = h / s + g / tau
            # correlation with g; too close to opposite to be resolved: exactly opposite
            c = -1.0 if np.abs(z).max() < 1e-7 * np.abs(g / tau).max() else (width2(case, space, z) - 2.0) / 2.0
            H.append(h), w0.append(w), cov.append(c * s * tau)

        add(g)
        cov[0] = w0[0]
        for k in range(4):
            h = in_units(rand_grad(case, n, g, sd) if k else r.normal(size=n), sd)
            add(h)
            # and its part that the cut does not see
            if abs(cov[-1]) > 0.999 * math.sqrt(w0[-1]) * tau:
                continue
            q = h - (cov[-1] / (tau * tau)) * g
            wq = width2(case, space, q)
            if wq > 0:
                H.append(q), w0.append(wq), cov.append(0.0)
        x0 = np.array(space.xc(), dtype=float)
        e.status = apply_cut(case, space, kind, (g, e.beta))
        e.tsq = float(space.tsq())
        x1 = np.array(space.xc(), dtype=float)
        e.H, e.w0, e.cov = np.array(H), np.array(w0), np.array(cov)
        if e.status == CutStatus.Success and not max_gap_ok(e):
            return
        e.w1 = np.array([width2(case, space, h) for h in H])
        e.shift = e.H @ (x1 - x0)
        e.xmag = np.abs(e.H) @ (np.abs(x0) + np.abs(x1))
        judge(case, e)
        case.hit("wide")
        case.signature("wide", cls, n, kind, e.status.name, round(max(min(e.lo, 3), -3), 1), round(max(min(e.hi, 3), -3), 1))


def wide_contained(case, e):
    a, b = max(e.lo, -1.0), min(e.hi, 1.0)
    if e.status == CutStatus.NoSoln:
        case.check(e.lo > e.hi or b - a <= 1e-9, "reported that nothing is left although the cut keeps part of the set", **e.brief())
    if e.lo > e.hi or a > b:
        return
    s0, s1 = np.sqrt(e.w0), np.sqrt(np.maximum(e.w1, 0.0))
    hp = e.cov / e.tau
    hq = np.sqrt(np.maximum(e.w0 - hp * hp, 0.0))
    for sg in (1.0, -1.0):
        t = np.clip(sg * hp / s0, a, b)
        keep = sg * hp * t + hq * np.sqrt(np.maximum(1.0 - t * t, 0.0))
        have = sg * e.shift + s1
        slack = 1e-7 * s0 + 8 * EPS * e.xmag
        bad = have < keep - slack
        case.check(not bad.any(), "a point satisfying the cut was discarded",
                   lost_fraction_of_width=float(np.max((keep - have) / s0)), direction_correlation=(hp / s0), **e.brief())


def wide_shrinks(case, e):
    """Volume factor from the widths along the gradient and across it."""
    orth = (e.cov == 0.0)
    if not orth.any():
        return
    A = float(e.w1[0] / e.w0[0])
    B = e.w1[orth] / e.w0[orth]
    case.check(float(B.max() - B.min()) <= 1e-7, "directions the cut does not see changed differently", factors=B, **e.brief())
    d = 0.5 * (math.log(A) + (e.n - 1) * math.log(float(B.mean())))
    tol = 1e-8 * e.n
    if e.status != CutStatus.Success:
        case.check(abs(d) <= tol, "a cut that was not applied changed the volume", d=d, **e.brief())
        return
    bound = -1.0 / (2.0 * (e.n + 1)) if e.hi <= 0.0 else 0.0
    case.check(d <= bound + tol, "accepted cut shrank the volume by less than guaranteed", log_volume_ratio=d, bound=bound, **e.brief())


def wide_optimal(case, e):
    s0 = np.sqrt(e.w0)
    if e.status != CutStatus.Success:
        want, move = e.w0, 0.0 * e.w0
        tol = 1e-9
    else:
        if e.hi > 1.0 + 1e-12:
            return
        t0, A2, B2, mu = minvol(e.n, max(e.lo, -1.0), min(e.hi, 1.0))
        if mu < 1.0 + 1e-7 and e.hi > 0:
            return
        want = B2 * e.w0 - (B2 - A2) * (e.cov / e.tau) ** 2
        move = t0 * e.cov / e.tau
        tol = 1e-7
    case.check(bool(np.all(np.abs(e.w1 - want) <= tol * e.w0)), "not the smallest ellipsoid: widths",
               got=e.w1 / e.w0, want=want / e.w0, **e.brief())
    case.check(bool(np.all(np.abs(e.shift - move) <= tol * s0 + 8 * EPS * e.xmag)), "not the smallest ellipsoid: center",
               got=e.shift / s0, want=move / s0, **e.brief())


def wide_truthful(case, e):
    exp = expected_status(e.n, e.kind, e.lo, e.hi, e.pair)
    case.check(e.status in exp, "status does not describe what the cut leaves",
               expected=sorted(s.name for s in exp), **e.brief())
    case.check(abs(e.tsq - e.tau ** 2) <= 1e-9 * e.tau ** 2, "reported size is not the squared half-width along the cut",
               reported=e.tsq, actual=e.tau ** 2, **e.brief())
    if e.status != CutStatus.Success:
        case.check(bool(np.all(np.abs(e.w1 - e.w0) <= 1e-12 * e.w0)) and not e.shift.any(),
                   "a cut that was not applied changed the ellipsoid", **e.brief())


def any_flags(case):
    r = case.rng
    f = {}
    if r.random() < 0.15:
        f["no_defer"] = True
    if r.random() < 0.10:
        f["no_parallel"] = True
    return f


def compare_obs(case, o, x1, P1, tol, what, **wit):
    """Centre and shape agree with the prediction, in the predicted metric."""
    s = np.sqrt(np.abs(np.diag(P1)))
    C = P1 / np.outer(s, s)
    L = np.linalg.cholesky(C)
    D = (o.P - P1) / np.outer(s, s)
    W = np.linalg.solve(L, np.linalg.solve(L, D.T).T)
    err = float(np.abs(W).max())
    dx = np.linalg.solve(L, (o.xc - x1) / s)
    ex = float(np.linalg.norm(dx))
    slack = 8 * EPS * float(np.max(np.abs(x1) / s)) * math.sqrt(
        np.linalg.cond(C)
    ) * math.sqrt(len(s))
    case.check(err <= tol, what + ": shape", shape_error=err, tol=tol, P_model=P1, **wit)
    case.check(
        ex <= tol + slack, what + ": center", center_error=ex, tol=tol, x_model=x1, **wit
    )


def unusable(case, on_state=None):
    """Gradients without a direction (zero, or too small to square): refused, or
    no effect; either way the set stays what it was."""
    r = case.rng
    cls = str(r.choice(list(SPACES)))
    n = int(r.integers(2, 8))
    space, how = make_space(case, SPACES[cls], n)
    if r.random() < 0.2:
        space.no_defer_trick = True
    for _ in range(int(r.integers(0, 4))):
        apply_cut(case, space, "central", (r.normal(size=n), 0.0))
    o0 = observe(case, space)
    kind = str(r.choice(KINDS))
    beta, _form = beta_form(case, float(r.choice([0.0, 0.0, 1.0])), None)
    m = {"bias": space.update_bias_cut, "central": space.update_central_cut, "q": space.update_q}[kind]
    tiny = r.random() < 0.5
    size = float(space.tsq())
    if tiny:
        g = np.zeros(n)
        k = int(r.integers(n))
        g[k] = float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-320, -290))
        case.hit("tiny-gradient")
    else:
        g = np.zeros(n, dtype=r.choice([float, int]))
        case.hit("zero-gradient")
    st = None
    try:
        st = case.sut(m, (g, beta), allow=(ValueError,))
    except ValueError:
        pass
    case.check(
        tiny or st is None, "a zero gradient must be refused with an error", status=st, space=cls
    )
    if not tiny:
        now = float(space.tsq())
        case.check(now == size, "a refused cut changed the reported size", before=size, after=now, space=cls)
    o1 = observe(case, space)
    if st != CutStatus.Success:
        case.check(
            np.array_equal(o0.xc, o1.xc) and same_shape(o0, o1),
            "a refused cut changed the ellipsoid",
            before=[o0.xc, o0.P],
            after=[o1.xc, o1.P],
            space=cls,
            gradient=g,
        )
    case.check(bool(np.all(np.isfinite(o1.P))), "unusable gradient left a broken ellipsoid")
    case.signature(cls, n, kind, tiny, str(st))


def max_gap_ok(e):
    return min(e.hi, 1.0) - max(e.lo, -1.0) > 1e-5


class OutOfRange(Exception):
    """The run reached an eccentricity that double precision cannot represent; what was
    observed so far stands, nothing further is claimed."""


class Guard:
    def __init__(self, case, space, every=8, limit=1e11):
        self.case, self.space, self.every, self.limit = case, space, every, limit
        self.k = 0

    def tick(self):
        self.k += 1
        if self.k % self.every:
            return
        xc = np.asarray(self.space.xc(), dtype=float)
        n = len(xc)
        s = np.array([width2(self.case, self.space, e) for e in np.eye(n)])
        if not (np.all(np.isfinite(s)) and np.all(s > 0)):
            return
        s = np.sqrt(s)
        P = np.eye(n)
        for i in range(n):
            for j in range(i):
                g = np.zeros(n)
                g[i], g[j] = 1 / s[i], 1 / s[j]
                P[i, j] = P[j, i] = (width2(self.case, self.space, g) - 2.0) / 2.0
        w = np.linalg.eigvalsh(P)
        # the plain (not equilibrated) eccentricity is what limits the rank-one update
        if w[0] <= w[-1] / self.limit or s.max() ** 2 / s.min() ** 2 > self.limit * 1e3:
            self.case.hit("out-of-range")
            raise OutOfRange


def flat(case, guard=None):
    """Cuts that leave a set of no volume, in numbers that are exact in binary: one
    point (the plane touches the set) or a disc (the two planes coincide).  Something
    is left, so it is not 'no solution'; it must lie in what is kept; nothing may
    become undefined."""
    r = case.rng
    call = guard or (lambda fn, *a: case.sut(fn, *a))
    n = int(r.integers(2, 11))
    val = 4.0 ** int(r.integers(-3, 4))
    xc = r.integers(-3, 4, n).astype(float) if r.random() < 0.5 else np.zeros(n)
    g = lattice_grad(case, n)
    tau = math.sqrt(val * float(g @ g))
    kind = str(r.choice(["bias", "q", "central"], p=[0.45, 0.45, 0.1]))
    a = float(r.choice([-1.0, 1.0, 0.0, 0.5, -0.5, 0.25, -0.75]))
    if kind == "central":
        a, beta = 0.0, [float(r.choice([0.0, 0.5])), 0.0]
    elif r.random() < 0.5:
        a, beta = 1.0, tau
        if r.random() < 0.5:
            beta = [tau, tau * float(r.choice([1.0, 1.5, 4.0]))]
    elif r.random() < 0.15:
        a, beta = -1.0, [-tau * float(r.choice([1.5, 3.0])), -tau]
    else:
        beta = [a * tau, a * tau]
    if isinstance(beta, list):
        beta = [beta, tuple(beta), np.array(beta)][int(r.integers(3))]
    else:
        beta = [beta, [beta], (beta,), np.float64(beta)][int(r.integers(4))]
    nd = r.random() < 0.2
    res = []
    for cls in SPACES:
        s = case.sut(SPACES[cls], val, xc.copy())
        if nd:
            s.no_defer_trick = True
        m = {"bias": s.update_bias_cut, "central": s.update_central_cut, "q": s.update_q}[kind]
        st = call(m, (g.copy(), copy.deepcopy(beta)))
        wit = dict(space=cls, n=n, scale=val, center=xc, gradient=g, offset=beta, kind=kind, status=st, no_defer=nd)
        case.check(st != CutStatus.NoSoln, "reported that nothing is left although a point of the set satisfies the cut", **wit)
        case.check(abs(float(s.tsq()) - tau * tau) <= 1e-12 * tau * tau, "reported size is not the squared half-width along the cut",
                   reported=s.tsq(), actual=tau * tau, **wit)
        x1 = np.array(s.xc(), dtype=float)
        case.check(bool(np.all(np.isfinite(x1))), "center is not finite", center_after=x1, **wit)
        W = []
        if st == CutStatus.Success:
            want = xc - a * val * g / tau
            case.check(bool(np.abs(x1 - want).max() <= 1e-9 * math.sqrt(val)), "center is not in the middle of what the cut keeps",
                       center_after=x1, expected=want, **wit)
            if abs(a) < 1.0:
                for _ in range(3):
                    h = r.normal(size=n)
                    h = h - g * (g @ h) / (g @ g)
                    c = copy.deepcopy(s)
                    call(c.update_central_cut, (h, 0.0))
                    w = float(c.tsq())
                    need = val * float(h @ h) * (1.0 - a * a)
                    case.check(w >= need * (1 - 1e-7) and math.isfinite(w), "points satisfying the cut were discarded",
                               width_sq=w, needed=need, direction=h, **wit)
                    case.check(w <= need * n / (n - 1.0) * (1 + 1e-7), "a disc was kept in a larger ellipsoid than the limit of thin slabs",
                               width_sq=w, needed=need, direction=h, **wit)
                    W.append(w / need)
        else:
            case.check(np.array_equal(x1, xc), "a cut that was not applied moved the center", **wit)
        res.append((st, float(np.mean(W)) if W else 0.0))
    case.check(res[0][0] == res[1][0] and abs(res[0][1] - res[1][1]) <= 1e-6 * abs(res[0][1]), "implementations differ on a cut that leaves a flat set",
               results=res, n=n, kind=kind, gradient=g, offset=beta)
    case.hit("flat")
    case.signature("flat", n, kind, a, type(beta).__name__, str(res[0][0]), nd)


def shadow(case):
    """A whole run next to a model in extended precision: sizes and centers at every step,
    widths at the end, to a tolerance of accumulated rounding only."""
    r = case.rng
    L = np.longdouble
    cls = str(r.choice(["Ell", "Ell", "EllStable"]))
    top = 120 if cls == "Ell" else 30
    n = int(r.integers(2, 13)) if r.random() < 0.4 else int(r.integers(13, top + 1))
    if r.random() < 0.15:
        n = case.hot_int(2, top, n)
    unit = 10.0 ** float(r.uniform(-3, 3))
    d = unit * unit * 10.0 ** r.uniform(-0.5, 0.5, n)
    x = unit * r.normal(size=n)
    space = case.sut(SPACES[cls], d.copy(), x.copy())
    if r.random() < 0.2:
        space.no_defer_trick = True
    P, c = np.diag(d.astype(L)), x.astype(L)
    steps = int(r.integers(5, 60 if n <= 60 else 25))
    cond = 1.0
    for step in range(steps):
        g = r.normal(size=n) / unit
        Pg = P @ g.astype(L)
        tau2 = g.astype(L) @ Pg
        tau = np.sqrt(tau2)
        u = r.random()
        if u < 0.4:
            kind, beta, lo, hi = "central", 0.0, -1.0, 0.0
        elif u < 0.65:
            a = float(r.uniform(0, 0.6))
            kind, beta, lo, hi = ("bias" if r.random() < 0.5 else "q"), a * float(tau), -1.0, -a
        elif u < 0.75:
            a = -float(r.uniform(0, 0.9)) / n
            kind, beta, lo, hi = "q", a * float(tau), -1.0, -a
        else:
            a0 = float(r.uniform(0, 0.5))
            a1 = a0 + float(r.uniform(0.1, 0.45))
            kind, beta, lo, hi = ("bias" if r.random() < 0.5 else "q"), (a0 * float(tau), a1 * float(tau)), -a1, -a0
        st = apply_cut(case, space, kind, (g.copy(), beta))
        wit = dict(space=cls, n=n, step=step, kind=kind, interval=[lo, hi], cond=cond)
        case.check(st == CutStatus.Success, "status does not describe what the cut leaves", status=st.name, **wit)
        tol = 1e-13 * (step + 1 + n) * cond
        size = float(space.tsq())
        case.check(abs(size - float(tau2)) <= tol * float(tau2), "the size drifts from the exact one", got=size, exact=float(tau2), tol=tol, **wit)
        a, b = L(lo), L(hi)
        S2, p, d2 = (a + b) ** 2, a * b, (b - a) ** 2 / 4
        c1 = (a * a + b * b) / 2 - 1
        mu = (-c1 + np.sqrt(c1 * c1 + (n * n - 1) * d2 * S2)) / (2 * (n - 1) * d2)
        lam = mu - 1
        R2 = 1 - lam * p + lam * lam * S2 / (4 * mu)
        c = c + lam * (a + b) / (2 * mu) * Pg / tau
        P = R2 * P - (R2 - R2 / mu) * np.outer(Pg, Pg) / tau2
        if n <= 12 or step % 6 == 0:
            s = np.sqrt(np.diag(P))
            w = np.linalg.eigvalsh((P / np.outer(s, s)).astype(float))
            cond = max(cond, float(w[-1] / w[0]), float((s.max() / s.min()) ** 2))
        if cond > 1e7:
            break
        sd = np.sqrt(np.diag(P)).astype(float)
        e = np.abs(np.asarray(space.xc(), float) - c.astype(float)) / sd
        slack = tol + 64 * EPS * (step + 1) * float(np.abs(c).max()) / sd.min()
        case.check(bool(e.max() <= slack), "the center drifts from the exact one", error=float(e.max()), tol=slack, **wit)
        case.hit("shadow-step")
    for _ in range(3):
        h = r.normal(size=n) / unit
        w = float(h.astype(L) @ P @ h.astype(L))
        got = width2(case, space, h)
        case.check(abs(got - w) <= 1e-13 * (steps + n) * cond * w, "the width drifts from the exact one", got=got, exact=w, cond=cond, space=cls, n=n, steps=steps)
    case.signature("shadow", cls, n, steps)


# ------------------------------------------------- cuts along the axes of the ellipsoid
def minvol_exact(n, a, b):
    """minvol in 60 digits: slivers and slabs of any thinness."""
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        D = decimal.Decimal
        a, b, n = D(a), D(b), D(n)
        S2, p, d2 = (a + b) ** 2, a * b, (b - a) ** 2 / 4
        c1 = (a * a + b * b) / 2 - 1
        mu = (-c1 + (c1 * c1 + (n * n - 1) * d2 * S2).sqrt()) / (2 * (n - 1) * d2)
        lam = mu - 1
        R2 = 1 - lam * p + lam * lam * S2 / (4 * mu)
        return float(lam * (a + b) / (2 * mu)), float(R2 / mu), float(R2), float(mu)


class AxisCut:
    """An update whose gradient is an axis of the ellipsoid; shapes are diagonal, so the
    squared half-widths along the axes say everything, at any eccentricity."""

    __slots__ = ("cls", "n", "kind", "i", "g", "beta", "lo", "hi", "pair", "w0", "w1", "x0", "x1", "status", "tsq", "tol", "step")

    def brief(self):
        return dict(
            space=self.cls, kind=self.kind, axis=self.i, gradient=self.g, offset=self.beta, keeps=[self.lo, self.hi],
            widths_before=self.w0, widths_after=self.w1, center_before=self.x0, center_after=self.x1,
            status=self.status.name, step=self.step,
        )


def thin_alphas(case, n, kind):
    """Offsets that leave little: (alpha0, alpha1 or None)."""
    r = case.rng
    t = 10.0 ** float(r.uniform(-11, -2))
    if kind == "central":
        return 0.0, 10.0 ** float(r.uniform(-6, 0))
    u = r.random()
    if u < 0.4:
        return 1.0 - t, None
    t = 10.0 ** float(r.uniform(-6, -1))
    a = float(r.choice([r.uniform(0, 1), 1.0 - 2 * t, 0.0, 10.0 ** r.uniform(-9, -1)]))
    a = min(a, 1.0 - t)
    if u < 0.7:
        return a, a + t
    if u < 0.85:
        return -a - t, -a
    return -t * float(r.random()), t * float(r.random())


def axis_widths(case, space, n):
    return np.array([width2(case, space, e) for e in np.eye(n)])


def axes(case, judge, both=False):
    r = case.rng
    n = int(r.integers(2, 7)) if r.random() < 0.85 else int(r.integers(7, 21))
    names = ["Ell", "EllStable"] if both else [str(r.choice(["Ell", "EllStable"]))]
    val = 4.0 ** r.integers(-6, 7, n) if r.random() < 0.4 else 10.0 ** float(r.uniform(-10, 10))
    x = r.normal(size=n) * float(r.choice([0.0, 1.0]))
    nd = bool(r.random() < 0.15)
    spaces = []
    for c in names:
        s = case.sut(SPACES[c], val.copy() if isinstance(val, np.ndarray) else val, x.copy())
        s.no_defer_trick = nd
        spaces.append(s)
    drift = 0.0
    for step in range(int(r.integers(1, 9))):
        w = [axis_widths(case, s, n) for s in spaces]
        if w[0].min() < 1e-55 or w[0].max() > 1e55:
            break
        i = int(r.integers(n))
        g = np.zeros(n)
        g[i] = float(r.choice([-1.0, 1.0])) * (1.0 if r.random() < 0.6 else 10.0 ** float(r.uniform(-10, 10)))
        kind = str(r.choice(KINDS, p=[0.4, 0.2, 0.4]))
        tau = math.sqrt(width2(case, spaces[0], g))
        for _ in range(30):
            a0, a1 = thin_alphas(case, n, kind) if r.random() < 0.6 else rand_alphas(case, n, kind)
            b0, b1 = a0 * tau, None if a1 is None else a1 * tau
            beta, _form = beta_form(case, b0, b1, exact=True)
            lo, hi = retained(kind, beta, tau)
            pair = lo > -math.inf
            gap = min(hi, 1.0) - max(lo, -1.0)
            if not asserted_domain(kind, a0, a1, lo, hi, pair) or abs(gap) < 1e-12 or (pair and 0 <= gap < 1e-7):
                continue
            if abs(hi) < 1e-15 and kind == "bias" and hi > 0:
                continue
            break
        else:
            return
        tol = 1e-8 + (1e4 * EPS / gap**2 if pair else 1e5 * EPS / gap) if gap > 0 else 1e-8
        evs = []
        for c, s, w0 in zip(names, spaces, w):
            e = AxisCut()
            e.cls, e.n, e.kind, e.i, e.g, e.beta, e.lo, e.hi, e.pair = c, n, kind, i, g, beta, lo, hi, pair
            e.w0, e.x0, e.tol, e.step = w0, np.array(s.xc(), dtype=float), tol, step
            e.status = apply_cut(case, s, kind, (g.copy(), beta))
            e.tsq = float(s.tsq())
            e.w1, e.x1 = axis_widths(case, s, n), np.array(s.xc(), dtype=float)
            evs.append(e)
            case.hit("axis-cut:" + e.status.name)
            case.signature("axis", c, n, kind, e.status.name, round(math.log10(max(abs(gap), 1e-14))), pair, nd)
            if not both:
                judge(case, e)
        if both:
            # each step judges offsets in units of a width that has drifted
            drift = tol + 4 * drift * (1.0 + (1.0 / gap if gap > 0 else 0.0))
            if drift > 1e-3:
                break
            judge(case, evs[0], evs[1], drift)
        if tol > 1e-3:
            break


def _axis_offsets(e):
    """Center and squared semi-axes after the cut, in units of those before."""
    t = float(np.sign(e.g[e.i])) * (e.x1[e.i] - e.x0[e.i]) / math.sqrt(e.w0[e.i])
    return t, e.w1 / e.w0


def _axis_slack(e):
    """Rounding of the center itself, in units of the new half-width."""
    return 16 * EPS * (abs(e.x0[e.i]) + abs(e.x1[e.i]) + math.sqrt(e.w0[e.i])) / math.sqrt(e.w1[e.i])


def axis_contained(case, e):
    if e.status != CutStatus.Success or e.tol > 1e-3:
        return
    a, b = max(e.lo, -1.0), min(e.hi, 1.0)
    if a > b:
        return
    t, q = _axis_offsets(e)
    oth = np.delete(q, e.i)
    tol = 4 * e.tol + 4 * _axis_slack(e)
    if tol > 1e-2:  # the rounding of the center is no longer small against the set
        return
    for y in (a, b, (a + b) / 2, min(max(0.0, a), b), min(max(t, a), b)):
        v = (y - t) ** 2 / q[e.i] + max(1.0 - y * y, 0.0) / float(oth.min())
        case.hit("axis-points")
        case.check(v <= 1.0 + tol, "a point that satisfies the cut was discarded", at=y, level=v, tol=tol, **e.brief())
    moved = np.delete(np.abs(e.x1 - e.x0), e.i)
    case.check(bool(np.all(moved <= tol * np.sqrt(np.delete(e.w1, e.i)))), "the center left the axis of the cut", **e.brief())


def axis_shrinks(case, e):
    d = 0.5 * float(np.sum(np.log(e.w1 / e.w0)))
    if e.status == CutStatus.Success:
        if e.tol > 1e-3:
            return
        bound = -1.0 / (2.0 * (e.n + 1)) if e.hi <= 0 else 0.0
        case.hit("axis-volume")
        case.check(d <= bound + 2 * e.tol, "accepted cut shrank the volume by less than guaranteed", log_volume_ratio=d, bound=bound, **e.brief())
    else:
        case.check(abs(d) <= 1e-10, "a cut that was not applied changed the volume", d=d, **e.brief())


def axis_optimal(case, e):
    if e.status != CutStatus.Success:
        case.check(
            np.allclose(e.w0, e.w1, rtol=1e-10, atol=0) and np.array_equal(e.x0, e.x1), "an unapplied cut moved the set", **e.brief()
        )
        return
    if e.tol > 1e-3 or e.hi > 1.0 + 1e-12:
        return
    t0, A2, B2, mu = minvol_exact(e.n, max(e.lo, -1.0), min(e.hi, 1.0))
    if mu < 1.0 + 1e-7 and e.hi > 0:
        return
    t, q = _axis_offsets(e)
    case.hit("axis-compared")
    want = np.full(e.n, B2)
    want[e.i] = A2
    case.check(bool(np.all(np.abs(q / want - 1) <= e.tol)), "not the smallest ellipsoid: shape", got=q, want=want, tol=e.tol, **e.brief())
    case.check(
        abs(t - t0) <= (e.tol + _axis_slack(e)) * math.sqrt(A2), "not the smallest ellipsoid: center", got=t, want=t0, tol=e.tol, **e.brief()
    )


def axis_truthful(case, e):
    exp = expected_status(e.n, e.kind, e.lo, e.hi, e.pair, margin=1e-12)
    case.check(e.status in exp, "status does not describe what the cut leaves", expected=sorted(s.name for s in exp), **e.brief())
    w = e.w0[e.i] * e.g[e.i] ** 2
    case.check(abs(e.tsq - w) <= 1e-12 * w, "reported size is not the squared half-width along the cut", reported=e.tsq, actual=w, **e.brief())
    case.hit("axis-size")
    if e.status != CutStatus.Success:
        case.check(
            np.allclose(e.w0, e.w1, rtol=1e-10, atol=0) and np.array_equal(e.x0, e.x1),
            "a cut that was not applied changed the ellipsoid", **e.brief(),
        )


def axis_same(case, e, f, tol):
    exp = expected_status(e.n, e.kind, e.lo, e.hi, e.pair, margin=max(1e-12, tol))
    if e.status != f.status:
        case.check(e.status in exp and f.status in exp and len(exp) > 1, "the two spaces report different statuses", other=f.status.name, **e.brief())
        return
    case.hit("axis-same")
    case.check(abs(e.tsq - f.tsq) <= tol * e.tsq, "the two spaces report different sizes", other=f.tsq, mine=e.tsq, **e.brief())
    case.check(bool(np.all(np.abs(e.w1 / f.w1 - 1) <= tol)), "the two spaces have different shapes", other=f.w1, tol=tol, **e.brief())
    case.check(
        bool(np.all(np.abs(e.x1 - f.x1) <= (tol + _axis_slack(e)) * np.sqrt(e.w1))), "the two spaces have different centers", other=f.x1, **e.brief()
    )


def axis_family(judge, both=False):
    return lambda case: axes(case, judge, both)
