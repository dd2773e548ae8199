"""Convex test problems with certificates, as exact separation oracles.

Every feasible set F is built around a known ball B(z, r) in F, so completeness has
a rigorous iteration bound; every optimisation problem comes with its optimum.
Oracles return unit-norm gradients unless scaled on purpose.
"""

import math

import numpy as np


class Poly:
    """a_i'x <= b_i."""

    def __init__(self, A, b):
        self.A, self.b = A, b

    def worst(self, x):
        v = self.A @ x - self.b
        k = int(np.argmax(v))
        return float(v[k]), self.A[k].copy()

    def all(self, x):
        v = self.A @ x - self.b
        for k in range(len(v)):
            yield float(v[k]), self.A[k].copy()


class Slabs(Poly):
    """l_i <= a_i'x <= u_i, offered as natural pairs of parallel cuts."""

    def __init__(self, A, lo, up):
        self.rows, self.lo, self.up = A, lo, up
        super().__init__(np.vstack([A, -A]), np.concatenate([up, -lo]))

    def width(self, k):
        k %= len(self.rows)
        return float(self.up[k] - self.lo[k])


class Ball:
    """|M(x-c)| <= rho (a convex, non-polyhedral constraint)."""

    def __init__(self, M, c, rho):
        self.M, self.c, self.rho = M, c, rho

    def worst(self, x):
        y = self.M @ (x - self.c)
        s = float(np.linalg.norm(y))
        if s == 0.0:
            return -self.rho, None
        g = self.M.T @ y / s
        return s - self.rho, g

    def all(self, x):
        yield self.worst(x)


class FeasOracle:
    """Separation oracle over constraints; exact deep cuts.

    order: 'worst' most violated, 'first', 'robin' (remembers where it was),
    'random'.  scale multiplies (g, beta).  slab adds a valid second plane.
    """

    def __init__(self, case, cons, order, scale, slab, R, center, weak=1.0):
        self.case, self.cons, self.order, self.scale = case, cons, order, scale
        self.slab, self.R, self.center = slab, R, center
        self.rr = 0
        self.calls = 0
        self.weak = weak
        self.guard = None

    def violated(self, x):
        out = []
        for c in self.cons:
            for k, (v, g) in enumerate(c.all(x)):
                if v > 0:
                    w = c.width(k) if isinstance(c, Slabs) else None
                    out.append((v, g, w))
        return out

    def assess_feas(self, x):
        self.calls += 1
        if self.guard is not None:
            self.guard.tick()
        x = np.asarray(x, dtype=float)
        bad = self.violated(x)
        if not bad:
            return None
        if self.order == "worst":
            v, g, w = max(bad, key=lambda t: t[0])
        elif self.order == "first":
            v, g, w = bad[0]
        elif self.order == "random":
            v, g, w = bad[int(self.case.rng.integers(len(bad)))]
        else:
            self.rr += 1
            v, g, w = bad[self.rr % len(bad)]
        nrm = float(np.linalg.norm(g))
        g, v = g / nrm, v / nrm
        far = None if w is None else v + w / nrm
        # a valid cut may also be stated weaker than it could be
        v *= self.weak if self.weak is not None else float(self.case.rng.random())
        s = self.scale if self.scale else 10.0 ** float(self.case.rng.uniform(-3, 3))
        if far is not None and self.case.rng.random() < 0.8:
            return g * s, (v * s, far * s)
        if self.slab:
            # g'(y-x) >= -(distance to the far side of the initial ball): always valid
            far = float(g @ (x - self.center)) + 1.0 * self.R * float(self.case.rng.uniform(1.0, 1.5))
            if far > v:
                return g * s, (v * s, far * s)
        return g * s, v * s


def random_set(case, n, z, r_in, hard=False):
    """Constraints of a convex set containing B(z, r_in)."""
    rng = case.rng
    cons = []
    kind = str(rng.choice(["poly", "thin", "ball", "mix", "slab", "cone", "pairs", "pairs"]))
    if kind in ("poly", "thin", "mix", "cone"):
        m = int(rng.integers(n + 1, 4 * n + 2))
        A = rng.normal(size=(m, n))
        if kind == "cone":
            A = np.abs(A) * rng.choice([-1.0, 1.0], n)
        A /= np.linalg.norm(A, axis=1)[:, None]
        pad = r_in * (1.0 + (0.0 if kind == "thin" else 1.0) * 10.0 ** rng.uniform(-2, hard and 0.5 or 1.5, m))
        cons.append(Poly(A, A @ z + pad))
    if kind in ("ball", "mix"):
        for _ in range(int(rng.integers(1, 4))):
            u = rng.normal(size=n)
            u /= np.linalg.norm(u)
            rho = r_in * float(10.0 ** rng.uniform(0, 1.5))
            # B(z, r_in) inside B(c, rho): |z-c| <= rho - r_in
            c = z + u * (rho - r_in) * float(rng.uniform(0, 1))
            cons.append(Ball(np.eye(n), c, rho))
    if kind == "pairs":
        m = int(rng.integers(n, 2 * n + 1))
        A = rng.normal(size=(m, n))
        A /= np.linalg.norm(A, axis=1)[:, None]
        up = A @ z + r_in * 10.0 ** rng.uniform(0, 0.7, m)
        lo = A @ z - r_in * 10.0 ** rng.uniform(0, 0.7, m)
        cons.append(Slabs(A, lo, up))
    if kind == "slab":
        A = np.linalg.qr(rng.normal(size=(n, n)))[0]
        A = np.vstack([A, -A])
        cons.append(Poly(A, A @ z + r_in * 10.0 ** rng.uniform(0, 1, 2 * n)))
    return kind, cons


def iteration_bound(n, R, r):
    """Cuts that keep a ball of radius r inside an ellipsoid of volume vol(B(R)) and
    shrink by exp(-1/(2(n+1))) each."""
    return 2.0 * (n + 1) * n * math.log(R / r)
