"""C05: the two search-space implementations are the same set at every step."""

import copy
import math

import numpy as np

from vlib import ellipsoid as E
from vlib.ellipsoid import CutStatus

PROPERTY = "C05"
ANCHORS = ["ell.py", "ell_stable.py"]
RULE = (
    "one history of cuts applied to both implementations in lock step, plus whole solver runs "
    "on both; distinct = (dim, kind, form, status, offset cell, flags)"
)
REQUIRED = {"lockstep": 3000, "solver-runs": 100, "mirrored-cuts": 3000}


def lockstep(case):
    r = case.rng
    n = min(E.pick_dim(case), 24)
    state = r.bit_generator.state
    a, how = E.make_space(case, E.SPACES["Ell"], n)
    r.bit_generator.state = state
    b, _ = E.make_space(case, E.SPACES["EllStable"], n)
    fl = E.any_flags(case)
    for s in (a, b):
        if fl.get("no_defer"):
            s.no_defer_trick = True
        if fl.get("no_parallel"):
            s.helper.use_parallel_cut = False
    oa, ob = E.observe(case, a), E.observe(case, b)
    E.compare_obs(case, ob, oa.xc, oa.P, 1e-10, "initial sets differ", **how)
    aged = r.random() < 0.08
    if aged:
        st = r.bit_generator.state
        E.age(case, a, n, 900 if n <= 6 else 150)
        r.bit_generator.state = st
        E.age(case, b, n, 900 if n <= 6 else 150)
        oa, ob = E.observe(case, a), E.observe(case, b)
        b.set_xc(oa.xc.copy())
        ob = E.observe(case, b)
        E.compare_obs(case, ob, oa.xc, oa.P, 1e-8, "implementations differ after a long history", **how)
    prev = None
    steps = int(r.integers(3, 13)) if n > 6 else int(r.integers(5, 40))
    worst = 1.0
    for step in range(steps):
        if r.random() < 0.05:
            x = oa.xc + 0.1 * oa.sd * r.normal(size=n)
            a.set_xc(x.copy())
            b.set_xc(x.copy())
        if r.random() < 0.03:
            s = (a, b)[int(r.integers(2))]
            if r.random() < 0.5:
                s.no_defer_trick = not s.no_defer_trick
            else:
                E.refused(case, s, n)
        kind = str(r.choice(E.KINDS))
        for _ in range(60):
            g = E.rand_grad(case, n, prev, oa.sd)
            if aged:
                g = E.in_units(g, oa.sd)
            a0, a1 = E.rand_alphas(case, n, kind)
            tau = math.sqrt(E.width2(case, a, g))
            beta, form = E.beta_form(case, a0 * tau, None if a1 is None else a1 * tau)
            lo, hi = E.retained(kind, beta, tau, not fl.get("no_parallel"))
            pair = lo > -math.inf
            if E.degenerate(lo, hi) or not E.asserted_domain(kind, a0, a1, lo, hi, pair):
                continue
            # stay clear of decision boundaries: there rounding may decide either way
            if len(E.expected_status(n, kind, lo, hi, pair, 1e-6 * worst)) != 1:
                continue
            if abs(lo + 1.0) < 1e-6 * worst:
                continue
            break
        else:
            return
        sa = E.apply_cut(case, a, kind, (g, beta))
        sb = E.apply_cut(case, b, kind, (copy.deepcopy(g), copy.deepcopy(beta)))
        wit = dict(
            kind=kind, gradient=np.asarray(g, float), offset=beta, offset_over_tau=[a0, a1],
            n=n, step=step, flags=fl,
        )
        case.check(sa == sb, "implementations report different statuses", Ell=sa.name, EllStable=sb.name, **wit)
        ta, tb = float(a.tsq()), float(b.tsq())
        case.check(
            abs(ta - tb) <= 1e-7 * worst * abs(ta), "implementations report different sizes", Ell=ta, EllStable=tb, **wit
        )
        oa, ob = E.observe(case, a), E.observe(case, b)
        if sa == CutStatus.Success:
            A2 = E.minvol(n, max(lo, -1.0), min(hi, 1.0))[1] if hi <= 1 else 1.0
            worst = max(worst, min(1.0 / A2, 1e6))
        tol = worst * (1e-9 + 1e-14 * (step + 1) * max(oa.cond, ob.cond))
        if tol > 1e-4 or oa.cond > 1e9:
            break
        E.compare_obs(case, ob, oa.xc, oa.P, tol, "implementations hold different sets", **wit)
        case.hit("lockstep")
        case.signature(n, kind, form, sa.name, round(max(min(lo, 3), -3), 1), round(max(min(hi, 3), -3), 1), tuple(fl))
        prev = np.asarray(g, dtype=float)
    case.show(n=n, steps=step, cond=oa.cond)


def lockstep_wide(case):
    """Both implementations side by side in higher dimension: centers, sizes, and widths
    along a few directions."""
    r = case.rng
    lit = sorted({k + d for j in case.lits["ints"] for k in (j, math.isqrt(abs(j))) for d in (-1, 0, 1) if 13 <= k + d <= 110})
    n = int(r.choice(lit)) if lit and r.random() < 0.3 else int(r.integers(13, 111) if r.random() < 0.5 else r.integers(13, 40))
    st = r.bit_generator.state
    a, how = E.make_space(case, E.SPACES["Ell"], n)
    r.bit_generator.state = st
    b, _ = E.make_space(case, E.SPACES["EllStable"], n)
    unit = np.sqrt(np.asarray(how["val"], dtype=float) * np.ones(n))
    for step in range(int(r.integers(2, 6))):
        kind = str(r.choice(E.KINDS))
        for _ in range(60):
            g = E.in_units(E.rand_grad(case, n, None, unit), unit)
            a0, a1 = E.rand_alphas(case, n, kind)
            tau = math.sqrt(E.width2(case, a, g))
            beta, form = E.beta_form(case, a0 * tau, None if a1 is None else a1 * tau)
            lo, hi = E.retained(kind, beta, tau)
            pair = lo > -math.inf
            if E.degenerate(lo, hi) or not E.asserted_domain(kind, a0, a1, lo, hi, pair) or min(hi, 1.0) - max(lo, -1.0) < 1e-3:
                continue
            if len(E.expected_status(n, kind, lo, hi, pair, 1e-6)) != 1 or abs(lo + 1.0) < 1e-6:
                continue
            break
        else:
            return
        sa = E.apply_cut(case, a, kind, (g, beta))
        sb = E.apply_cut(case, b, kind, (g.copy(), copy.deepcopy(beta)))
        wit = dict(kind=kind, n=n, step=step, offset_over_tau=[a0, a1])
        case.check(sa == sb, "implementations report different statuses", Ell=sa.name, EllStable=sb.name, **wit)
        case.check(abs(a.tsq() - b.tsq()) <= 1e-7 * a.tsq(), "implementations report different sizes", Ell=a.tsq(), EllStable=b.tsq(), **wit)
        xa, xb = np.asarray(a.xc(), float), np.asarray(b.xc(), float)
        case.check(bool(np.all(np.abs(xa - xb) <= 1e-6 * unit + 1e-12 * np.abs(xa))), "implementations hold different sets: center", **wit)
        for h in [E.in_units(r.normal(size=n), unit), E.in_units(E.rand_grad(case, n, g, unit), unit), g]:
            wa, wb = E.width2(case, a, h), E.width2(case, b, h)
            # widths along a direction the cuts made thin lose relative accuracy
            ref = float((h * unit) @ (h * unit))
            case.check(abs(wa - wb) <= 1e-7 * (wa + 1e-3 * ref), "implementations hold different sets: width", Ell=wa, EllStable=wb, direction=h, **wit)
        case.hit("lockstep-wide")
        case.signature("wide", n, kind, form, sa.name, round(max(min(lo, 3), -3), 1), round(max(min(hi, 3), -3), 1))


def lattice(case):
    """Offsets exactly on the decision boundaries; every number exact in binary."""
    r = case.rng
    n = int(r.integers(2, 10))
    val = 4.0 ** int(r.integers(-3, 4))
    a = case.sut(E.SPACES["Ell"], val, np.zeros(n))
    b = case.sut(E.SPACES["EllStable"], val, np.zeros(n))
    if r.random() < 0.2:
        a.no_defer_trick = b.no_defer_trick = True
    kind = str(r.choice(E.KINDS))
    for _ in range(100):
        g = E.lattice_grad(case, n)
        a0, a1 = E.lattice_alphas(case, n, kind)
        tau = math.sqrt(E.width2(case, a, g))
        beta, form = E.beta_form(case, a0 * tau, None if a1 is None else a1 * tau)
        lo, hi = E.retained(kind, beta, tau)
        pair = lo > -math.inf
        if not E.degenerate(lo, hi) and E.asserted_domain(kind, a0, a1, lo, hi, pair):
            break
    else:
        return
    wit = dict(n=n, kind=kind, gradient=g, offset=beta, offset_over_tau=[a0, a1])
    sa = E.apply_cut(case, a, kind, (g, beta))
    sb = E.apply_cut(case, b, kind, (g.copy(), beta))
    if sa != sb:
        ok = len(E.expected_status(n, kind, lo, hi, pair)) > 1
        case.check(ok, "implementations report different statuses", Ell=sa.name, EllStable=sb.name, **wit)
    oa, ob = E.observe(case, a), E.observe(case, b)
    E.compare_obs(case, ob, oa.xc, oa.P, 1e-8, "implementations hold different sets", **wit)
    # whatever either left behind, the next cut must still agree
    g = r.normal(size=n)
    E.apply_cut(case, a, "central", (g, 0.0))
    E.apply_cut(case, b, "central", (g.copy(), 0.0))
    oa, ob = E.observe(case, a), E.observe(case, b)
    E.compare_obs(case, ob, oa.xc, oa.P, 1e-8, "implementations differ one cut later", **wit)
    case.signature("lattice", n, kind, form, sa.name, lo, hi)


def solver_runs(case):
    """Same solver, same oracle, either space: same verdict, same iterations."""
    from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim
    from ellalgo.ell_config import Options

    r = case.rng
    n = int(r.integers(2, 7))
    m = int(r.integers(1, 2 * n))
    A = r.normal(size=(m, n))
    A /= np.linalg.norm(A, axis=1)[:, None]
    target = r.normal(size=n)
    slack = 10.0 ** r.uniform(-2, 0.5, m) * float(r.choice([1.0, 1.0, -0.3]))
    b = A @ target + slack
    c = r.normal(size=n)
    parallel = r.random() < 0.4

    class Lin:
        def __init__(self):
            self.margin = math.inf

        def assess_feas(self, x):
            v = A @ x - b
            k = int(np.argmax(v))
            s = np.sort(v)
            self.margin = min(self.margin, abs(v[k]), s[-1] - s[-2] if m > 1 else 1.0)
            if v[k] <= 0:
                return None
            if parallel:
                return A[k].copy(), (float(v[k]), float(v[k] + 6.0))
            return A[k].copy(), float(v[k])

        def assess_optim(self, x, gamma):
            f = float(c @ x) + 0.05 * float(x @ x)
            cut = self.assess_feas(x)
            if cut is not None:
                return cut, None
            self.margin = min(self.margin, abs(f - gamma))
            g = c + 0.1 * x
            if f >= gamma:
                return (g, f - gamma), None
            return (g, 0.0), f

    opt = Options()
    opt.max_iters = int(r.choice([30, 60, 100]))
    opt.tolerance = 1e-10
    mode = str(r.choice(["feas", "optim"]))
    names = list(E.SPACES)
    if r.random() < 0.5:
        names.reverse()
    mirror = E.SPACES[names[1]](float(16.0 * n), np.zeros(n))
    state = {"worst": 1.0, "k": 0, "on": True}

    class Mirrored(E.SPACES[names[0]]):
        """The space under the solver; every cut is also given to the other one."""

        def both(self, kind, cut):
            m = {"bias": "update_bias_cut", "central": "update_central_cut"}[kind]
            tau2 = E.width2(case, copy.deepcopy(mirror), cut[0])
            st = getattr(super(), m)(copy.deepcopy(cut))
            if not state["on"]:
                return st
            state["k"] += 1
            lo, hi = E.retained(kind, cut[1], math.sqrt(tau2))
            if len(E.expected_status(n, kind, lo, hi, lo > -math.inf, 1e-5)) != 1 or E.degenerate(lo, hi):
                state["on"] = False
                return st
            s2 = getattr(mirror, m)(copy.deepcopy(cut))
            wit = dict(mode=mode, n=n, step=state["k"], kind=kind, cut=list(cut), first=names[0])
            case.check(st == s2, "implementations report different statuses in a solver run", a=st.name, b=s2.name, **wit)
            if st == CutStatus.Success:
                A2 = E.minvol(n, max(lo, -1.0), min(hi, 1.0))[1]
                state["worst"] = max(state["worst"], min(1.0 / A2, 1e6))
            oa = E.observe(case, mirror)
            tol = state["worst"] * (1e-9 + 1e-14 * state["k"] * oa.cond)
            if tol > 1e-4 or oa.cond > 1e9:
                state["on"] = False
                return st
            d = np.asarray(self.xc(), float) - oa.xc
            case.check(
                E.maha(oa.P, d) <= tol + 1e-13 * float(np.max(np.abs(oa.xc) / oa.sd)) * math.sqrt(oa.cond),
                "implementations follow different paths on the same cuts", distance=E.maha(oa.P, d), tol=tol, **wit,
            )
            ta, tb = float(self.tsq()), float(mirror.tsq())
            case.check(abs(ta - tb) <= tol * 10 * ta, "implementations report different sizes", a=ta, b=tb, **wit)
            case.hit("mirrored-cuts")
            return st

        def update_bias_cut(self, cut):
            return self.both("bias", cut)

        def update_central_cut(self, cut):
            return self.both("central", cut)

        def __deepcopy__(self, memo):
            raise AssertionError

    om = Lin()
    sp = Mirrored(float(16.0 * n), np.zeros(n))
    if mode == "feas":
        x, it = case.sut(cutting_plane_feas, om, sp, opt)
    else:
        x, f, it = case.sut(cutting_plane_optim, om, sp, 1e9, opt)
    case.hit("solver-runs")
    case.signature("solve", mode, n, parallel, it // 5, x is None, names[0])


FAMILIES = {
    "lockstep": (lockstep, 1200, 9000),
    "lattice": (lattice, 1500, 8000),
    "lockstep_wide": (lockstep_wide, 160, 1500),
    "solver_runs": (solver_runs, 500, 4000),
    "unusable": (E.unusable, 150, 500),
    "flat": (E.flat, 300, 3000),
    "axes": (E.axis_family(E.axis_same, True), 2000, 16000),
}
