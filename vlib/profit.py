"""Reference model of the Cobb-Douglas profit problem (logarithmic variables)."""

import itertools
import math

import numpy as np


class Model:
    """max p A x^a - v.x  s.t. x0 <= k; in logs.  corners: uncertain elasticities."""

    def __init__(self, p, A, k, a, v, da=(0.0, 0.0)):
        self.raw = (p, A, k, a, v)
        self.logpA = math.log(p * A)
        self.logk = math.log(k)
        self.k = k
        self.v = np.array(v, dtype=float)
        self.corners = [
            np.array([a[0] + s * da[0], a[1] + t * da[1]]) for s, t in itertools.product((-1, 1), repeat=2)
        ] if any(da) else [np.array(a, dtype=float)]

    # worst-case log revenue and cost
    def logrev(self, Y):
        Y = np.atleast_2d(Y)
        return np.min([self.logpA + Y @ c for c in self.corners], axis=0)

    def cost(self, Y):
        return np.exp(np.atleast_2d(Y)) @ self.v

    def profit(self, y):
        return float(np.exp(self.logrev(y))[0] - self.cost(y)[0])

    def slack(self, Y, gamma):
        """> 0: limit and profit level both met (log scale)."""
        Y = np.atleast_2d(Y)
        lev = gamma + self.cost(Y)
        with np.errstate(all="ignore"):
            s = np.where(lev > 0, self.logrev(Y) - np.log(np.maximum(lev, 1e-300)), np.inf)
        return np.minimum(s, self.logk - Y[:, 0])

    def best(self):
        """Optimum of the (worst-case) profit, by nested ternary search on log profit level."""
        if len(self.corners) == 1:
            a = self.corners[0]
            lp = (self.logpA + sum(a[i] * math.log(a[i] / self.v[i]) for i in (0, 1))) / (1 - a.sum())
            x = np.array([math.log(a[i] / self.v[i]) + lp for i in (0, 1)])
            if x[0] > self.logk:
                lp = (self.logpA + a[0] * self.logk + a[1] * math.log(a[1] / self.v[1])) / (1 - a[1])
                x = np.array([self.logk, math.log(a[1] / self.v[1]) + lp])
            return x, self.profit(x)
        # max over y of g(y) = logrev - log(cost + gamma) >= 0: bisect on gamma is costly;
        # profit is quasi-concave in logs, coarse-to-fine grid is enough for an interior point
        x, _ = Model(*self.raw).best()
        lo, hi = x - 10.0, np.minimum(x + 10.0, [self.logk, np.inf])
        for _ in range(14):
            X, Y = np.meshgrid(np.linspace(lo[0], hi[0], 41), np.linspace(lo[1], hi[1], 41))
            P = np.column_stack([X.ravel(), Y.ravel()])
            f = np.exp(self.logrev(P)) - self.cost(P)
            b = P[int(np.argmax(f))]
            w = (hi - lo) / 6
            lo, hi = b - w, np.minimum(b + w, [self.logk, np.inf])
        return b, self.profit(b)

    def extreme(self, g, gamma, inner):
        """max g.y over limit and profit >= gamma, reached by rays from an interior point."""
        th = np.linspace(0, 2 * math.pi, 181)[:-1]
        t0 = math.atan2(g[1], g[0])
        best, arg, width = -math.inf, t0, th[1] - th[0]
        for rnd in range(4):
            D = np.column_stack([np.cos(th), np.sin(th)])
            lo = np.zeros(len(th))
            hi = np.full(len(th), 60.0)
            for _ in range(50):
                mid = (lo + hi) / 2
                ok = self.slack(inner + mid[:, None] * D, gamma) >= 0
                lo = np.where(ok, mid, lo)
                hi = np.where(ok, hi, mid)
            val = (inner + lo[:, None] * D) @ g
            j = int(np.argmax(val))
            if val[j] > best:
                best, arg, where = float(val[j]), th[j], inner + lo[j] * D[j]
            th = np.linspace(arg - width, arg + width, 41)
            width = th[1] - th[0]
        return best, where


def draw(case, grand=0.12):
    r = case.rng
    while True:
        out = _draw(case, r)
        if out is not None:
            break
    if r.random() < grand:  # the same firm in other units of quantity and money
        p, A, k, a, v = out
        s = 10.0 ** r.uniform(-4, 9, 2)
        c = 10.0 ** float(r.uniform(-4, 6))
        out = p * c, A / float(np.prod(s**a)), k * float(s[0]), a, v * c / s
        case.hit("other-units")
    return out


def decoys(case, make, args):
    """Oracles that differ from the one under test in one parameter."""
    def one(t, lo=1.01, hi=1.3):
        t = list(t)
        i = int(case.rng.integers(len(t)))
        t[i] = t[i] * float(case.rng.uniform(lo, hi))
        return tuple(t)

    alter = {0: one, 1: lambda a: np.array(one(a)), 2: lambda v: np.array(one(v))}
    if len(args) > 3:
        alter[3] = lambda e: one(e, 0.5, 0.99)
    case.decoys(make, args, alter)


def _draw(case, r):
    p = float(10.0 ** r.uniform(-0.5, 2))
    A = float(10.0 ** r.uniform(0, 2))
    a = r.uniform(0.08, 0.6, 2)
    if a.sum() > 0.93:
        a *= 0.9 / a.sum()
    v = 10.0 ** r.uniform(-0.5, 2, 2)
    u = r.random()
    if u < 0.04:
        p = case.hot(0.05, 500.0, p)
    elif u < 0.08:
        A = case.hot(0.05, 500.0, A)
    elif u < 0.12:
        v[int(r.integers(2))] = case.hot(0.05, 500.0, 1.0)
    elif u < 0.16:
        a[int(r.integers(2))] = case.hot(0.02, 0.6, 0.3)
        if a.sum() > 0.93:
            a *= 0.9 / a.sum()
    m = Model(p, A, 1e9, a, v)
    x, _ = m.best()
    if np.abs(x).max() > 6:
        return None
    k = float(math.exp(x[0] + r.uniform(-2, 2)))
    return p, A, k, a, v
