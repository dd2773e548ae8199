"""C08: the feasibility solver finds a feasible point whenever there is room for one."""

import math

import numpy as np

from ellalgo.cutting_plane import cutting_plane_feas
from ellalgo.ell_config import Options
from vlib import ellipsoid as E
from vlib import problems as P

PROPERTY = "C08"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py", "cutting_plane.py"]
UNREACHED_OK = ("_update_core", "calc_parallel", "cutting_plane_feas", "calc_single_or_parallel_central_cut", "calc_single_or_parallel_q")
RULE = (
    "random convex sets built around a known inner ball (and provably empty ones), solved on both "
    "spaces with every oracle order and cut form; distinct = (set kind, dim, space, order, slab, "
    "iteration decile)"
)
REQUIRED = {"solved": 400, "infeasible": 100, "lmi": 40, "far": 400, "touch": 100}


def setup(case, n):
    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    R = 10.0 ** float(r.choice([0, 0, 1, 2, -2, 4]))
    x0 = R * r.normal(size=n) * float(r.choice([0.0, 1.0, 5.0]))
    if r.random() < 0.4:
        axes = R * 10.0 ** r.uniform(-0.7, 0.0, n)
        axes[int(r.integers(n))] = R
        val = axes**2
        if r.random() < 0.3:
            val = val.tolist()
    else:
        axes = np.full(n, R)
        val = float(R * R)
    sp = case.sut(E.SPACES[cls], val, x0.copy())
    if r.random() < 0.15:
        sp.no_defer_trick = True
    if r.random() < 0.1:
        sp.helper.use_parallel_cut = False
    return cls, sp, x0, axes


def solve(case):
    r = case.rng
    n = int(r.choice([2, 2, 3, 3, 4, 5, 6, 8, 10, 14], p=[0.15, 0.1, 0.15, 0.1, 0.15, 0.1, 0.1, 0.07, 0.05, 0.03]))
    cls, sp, x0, axes = setup(case, n)
    if cls == "EllStable":
        n_ok = n <= 10
        if not n_ok:
            return
    # inner ball strictly inside the initial ellipsoid
    rin = float(axes.min()) * 10.0 ** float(r.choice([r.uniform(-2, -0.6), r.uniform(-5, -2)]))
    u = r.normal(size=n)
    u /= np.linalg.norm(u)
    z = x0 + (axes - rin) * u * 0.99 * float(r.choice([r.uniform(0, 1), 1.0])) if axes.min() > rin else x0
    # the ball must lie in the ellipsoid: conservative test on its farthest points
    s = float(np.linalg.norm((z - x0) / axes)) + rin / float(axes.min())
    if s > 1.0:
        z = x0 + (z - x0) * max(0.0, (1.0 - rin / float(axes.min()))) / (s - rin / float(axes.min()))
    kind, cons = P.random_set(case, n, z, rin, hard=bool(r.random() < 0.7))
    touch = np.ptp(axes) == 0.0 and r.random() < 0.3
    if touch:  # the set is at the very edge: the first deep cut leaves a sliver
        rin = float(axes[0]) * 10.0 ** float(r.uniform(-6, -1.5))
        z = x0 + (axes[0] - rin) * u * (1 - 1e-9)
        kind, cons = "touch", [P.Ball(np.eye(n), z, rin * float(r.choice([1.0, 1.3])))]
        case.hit("touch")
    order = str(r.choice(["worst", "first", "robin", "random"]))
    slab = bool(r.random() < 0.3)
    scale = float(r.choice([1.0, 1.0, 0.0, 1e-6, 1e5]))
    weak = 1.0 if touch and r.random() < 0.8 else [1.0, 1.0, 0.0, None][int(r.integers(4))]
    om = P.FeasOracle(case, cons, order, scale, slab, 1.05 * float(axes.max()), x0, weak)
    logratio = float(np.sum(np.log(axes))) - n * math.log(rin)
    bound = 2.0 * (n + 1) * logratio
    opt = Options()
    opt.max_iters = int(math.ceil(bound)) + 2
    smin = 1e-3 if scale == 0.0 else scale
    opt.tolerance = (rin * smin) ** 2 * float(r.choice([0.5, 1e-3, 1e-8]))
    om.guard = E.Guard(case, sp)
    try:
        x, it = case.sut(cutting_plane_feas, om, sp, opt, allow=(E.OutOfRange,))
    except E.OutOfRange:
        return
    case.hit("solved")
    wit = dict(set=kind, n=n, space=cls, order=order, slab=slab, weak=weak, inner_radius=rin, axes=axes, iterations=it, bound=bound)
    case.check(x is not None, "no point found although the set holds a ball wider than the tolerance", **wit)
    case.check(it <= bound + 1, "took more iterations than the volume argument allows", **wit)
    case.check(not om.violated(np.asarray(x, float)), "the point returned is infeasible", x=x, **wit)
    case.signature(kind, n, cls, order, slab, weak, int(10 * it / max(bound, 1)))
    case.show(**wit)


class Axis:
    """Small box hidden in a huge ball; central or deep cuts along one axis or a diagonal."""

    def __init__(self, case, z, half, unit=1.0):
        self.unit = unit
        self.r, self.z, self.half, self.deep = case.rng, z, half, float(case.rng.choice([0.0, 0.0, 1.0]))
        self.mode = str(case.rng.choice(["worst", "mixed"]))
        self.asked = 0

    def assess_feas(self, x):
        self.asked += 1
        d = np.asarray(x, float) - self.z
        v = np.abs(d) - self.half
        if v.max() <= 0:
            return None
        g = np.zeros(len(d))
        bad = np.flatnonzero(v > 0)
        k = int(np.argmax(v / self.half)) if self.mode == "worst" else int(self.r.choice(bad))
        g[k] = np.sign(d[k])
        return g * self.unit, self.deep * float(v[k]) * self.unit


def far(case):
    """Very small sets in very large ellipsoids: runs of hundreds of iterations."""
    r = case.rng
    n = int(r.choice([2, 2, 3, 4, 5, 6]))
    cls = str(r.choice(list(E.SPACES)))
    span = float(r.uniform(4, 11))
    R = 10.0 ** float(r.uniform(-3, 8))
    unit = 1.0
    if r.random() < 0.35:  # other units of length and of the constraints
        R = 10.0 ** float(r.uniform(-25, 25))
        unit = 10.0 ** float(r.uniform(-25, 25))
        case.hit("far:other-units")
    half = R * 10.0**-span
    u = r.normal(size=n)
    z0 = r.normal(size=n) * R * float(r.choice([0.0, 1e-3]))
    z = z0 + u / np.linalg.norm(u) * R * float(r.uniform(0, 0.95))
    sp = case.sut(E.SPACES[cls], float(R * R) if r.random() < 0.6 else np.full(n, R * R), z0.copy())
    axes = None
    if r.random() < 0.4:  # axes of very different length, as far as the set goes
        axes = 10.0 ** r.uniform(-8, 0, n)
        half, z0, u = half * axes, z0 * axes, u * axes
        z = z0 + u / np.linalg.norm(u / axes) * R * float(r.uniform(0, 0.95))
        sp = case.sut(E.SPACES[cls], (R * axes) ** 2, z0.copy())
        case.hit("far:axes")
    bound = 2.0 * (n + 1) * n * span * math.log(10.0)
    opt = Options()
    opt.tolerance = (float(np.min(half)) * unit) ** 2 * 1e-6
    if bound > 1990 or r.random() < 0.7:
        opt.max_iters = int(bound) + 3
    om = Axis(case, z, half, unit)
    x, it = case.sut(cutting_plane_feas, om, sp, opt)
    case.hit("far")
    wit = dict(n=n, space=cls, radius=R, unit=unit, half=half, iterations=it, bound=bound, limit=opt.max_iters)
    case.check(x is not None, "no point found although the set holds a ball wider than the tolerance", **wit)
    case.check(bool(np.all(np.abs(np.asarray(x, float) - z) <= half)), "the point returned is infeasible", x=x, **wit)
    case.check(it <= bound + 1 and it == om.asked - 1, "took more iterations than the volume argument allows", **wit)
    case.signature("far", n, cls, it // 10)


def empty(case):
    """No feasible point exists: None, and within the bound for the tolerance."""
    r = case.rng
    n = int(r.integers(2, 7))
    cls, sp, x0, axes = setup(case, n)
    R = float(axes.min())
    mode = str(r.choice(["contradiction", "outside"]))
    A = r.normal(size=(2 * n, n))
    A /= np.linalg.norm(A, axis=1)[:, None]
    b = A @ x0 + R * 10.0 ** r.uniform(-1, 0.5, 2 * n)
    if mode == "contradiction":
        g = A[0]
        A = np.vstack([A, -g])
        b = np.append(b, -b[0] - R * 10.0 ** float(r.uniform(-3, 0)))
    else:  # every feasible point is outside the initial set
        g = A[0]
        A = np.vstack([A, -g])
        b = np.append(b, -(float(g @ x0) + 1.05 * float(axes.max()) + R))
        b[0] = float(g @ x0) + 10 * float(axes.max())
    om = P.FeasOracle(case, [P.Poly(A, b)], str(r.choice(["worst", "robin", "random"])), 1.0, False, float(axes.max()), x0)
    opt = Options()
    tol_r = R * 10.0 ** float(r.uniform(-4, -2))
    opt.tolerance = tol_r**2
    # the run ends on the tolerance or on an empty cut; the volume argument does not
    # bound the first, so only a generous limit is set
    opt.max_iters = 4000
    om.guard = E.Guard(case, sp)
    try:
        x, it = case.sut(cutting_plane_feas, om, sp, opt, allow=(E.OutOfRange,))
    except E.OutOfRange:
        return
    case.hit("infeasible")
    if mode == "contradiction":
        case.check(x is None, "a point was returned for an empty set", x=x, n=n, space=cls)
    else:
        if x is not None:
            case.check(not om.violated(np.asarray(x, float)), "the point returned is infeasible", x=x)
    case.signature("empty", mode, n, cls, it // 10)


def lmi(case):
    """The bundled matrix-inequality oracle inside the solver."""
    from ellalgo.oracles.lmi_oracle import LMIOracle
    from ellalgo.oracles.lmi_old_oracle import LMIOldOracle

    r = case.rng
    n = int(r.integers(2, 5))
    m = int(r.integers(1, 5))
    cls = str(r.choice(list(E.SPACES)))
    F = []
    for _ in range(n):
        M = r.normal(size=(m, m))
        F.append((M + M.T) / 2)
    z = r.normal(size=n)
    z *= 0.8 * float(r.uniform(0, 1)) / np.linalg.norm(z)
    W = r.normal(size=(m, m))
    margin = 10.0 ** float(r.uniform(-1.5, 0))
    B = sum(Fk * zk for Fk, zk in zip(F, z)) + W @ W.T * float(r.choice([0.0, 0.3])) + margin * np.eye(m)
    lip = math.sqrt(sum(float(np.linalg.norm(Fk, 2)) ** 2 for Fk in F))
    rin = min(margin / lip, 0.19)
    om = (LMIOracle if r.random() < 0.5 else LMIOldOracle)(F, B)
    sp = E.SPACES[cls](1.0, np.zeros(n))
    bound = 2.0 * (n + 1) * n * math.log(1.0 / rin)
    opt = Options()
    opt.max_iters = int(bound) + 3
    opt.tolerance = 1e-30
    x, it = case.sut(cutting_plane_feas, om, sp, opt)
    case.hit("lmi")
    wit = dict(n=n, m=m, space=cls, inner_radius=rin, iterations=it, bound=bound)
    case.check(x is not None, "no point found although the inequality has room", **wit)
    A = B - sum(Fk * xk for Fk, xk in zip(F, x))
    case.check(float(np.linalg.eigvalsh(A)[0]) > -1e-9, "the point returned violates the inequality", x=x, **wit)
    case.check(it <= bound + 1, "took more iterations than the volume argument allows", **wit)
    case.signature("lmi", n, m, cls, it)


FAMILIES = {
    "solve": (solve, 14000, 90000),
    "far": (far, 700, 6000),
    "empty": (empty, 2500, 16000),
    "lmi": (lmi, 2500, 16000),
}
