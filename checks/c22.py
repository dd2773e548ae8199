"""C22: nothing the caller owns, and nothing handed out earlier, ever changes."""

import copy
import math

import numpy as np

from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.cutting_plane import (
    BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q,
)
from ellalgo.ell_config import Options
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact
from vlib import ellipsoid as E
from vlib import profit as PM
from vlib.ledger import Ledger

PROPERTY = "C22"
VOLUME = 4
ANCHORS = [
    "ell.py", "ell_stable.py", "cutting_plane.py", "conjugate_gradient.py", "oracles/ldlt_mgr.py",
    "oracles/lmi_oracle.py", "oracles/lmi_old_oracle.py", "oracles/lmi0_oracle.py",
    "oracles/lowpass_oracle.py", "oracles/profit_oracle.py", "oracles/spectral_fact.py",
]
UNREACHED_OK = ("_update_core", "assess_feas", "spectral_fact", "conjugate_gradient", "factor_with_allow_semidefinite", "cutting_plane_optim_q", "cutting_plane_feas", "cutting_plane_optim", "bsearch", "sqrt", "witness")
RULE = (
    "every object passed in or handed out during random histories of spaces, solver runs, oracle "
    "call sequences and linear-algebra calls is entered in a ledger and compared bit by bit after "
    "every later call (inputs read-only in half of the runs); distinct = (component, class, calls)"
)
REQUIRED = {
    "audited": 50000, "lent": 5000, "received": 5000, "space-histories": 500, "solver-runs": 300, "oracle-sequences": 500,
    "linear-algebra": 300, "copies": 300,
}


def spaces(case):
    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    n = int(r.integers(2, 9))
    led = Ledger(case, readonly=r.random() < 0.5)
    x0 = led.lend("initial center", r.choice([r.normal(size=n), np.zeros(n)]) if r.random() < 0.8 else r.integers(-3, 4, n))
    val = float(r.uniform(1, 9))
    if r.random() < 0.6:
        val = r.uniform(1, 9, n) if r.random() < 0.6 else r.uniform(1, 9, n).tolist()
        led.lend("initial axes", val)
    elif r.random() < 0.4:
        val = val * 10.0 ** float(r.uniform(-24, 24))
    sp = case.sut(E.SPACES[cls], val, x0)
    if r.random() < 0.3:
        sp.no_defer_trick = True
    twin = None
    for step in range(int(r.integers(2, 14))):
        led.receive(f"center {step}", sp.xc())
        kind = str(r.choice(E.KINDS))
        g = r.normal(size=n) if r.random() < 0.8 else r.integers(1, 4, n)
        if g.dtype == float and r.random() < 0.3:
            g = g * 10.0 ** float(r.uniform(-25, 25)) * (r.random(n) < 0.8)
            g[int(r.integers(n))] = float(np.abs(g).max()) or 1.0
        g = led.lend(f"gradient {step}", g)
        tau = math.sqrt(E.width2(case, sp, np.asarray(g, float)))
        a0 = float(r.choice([0.0, r.uniform(0, 0.8), 1.5, 0.1 if kind == "bias" else -r.uniform(0, 1)]))
        beta = a0 * tau
        u = r.random()
        if kind == "bias" and u < 0.6 and sp.helper.use_parallel_cut and r.random() < 0.3:  # a shallow pair
            a0 = -float(r.uniform(0.01, 0.9))
            beta = [a0 * tau, float(r.uniform(0.0, 0.99)) * tau]
            beta = led.lend(f"offsets {step}", beta if u < 0.3 else np.array(beta))
        elif u < 0.4:
            beta = led.lend(f"offsets {step}", np.array([a0 * tau, (a0 + float(r.uniform(0.2, 1))) * tau]))
            if kind == "bias" and a0 < 0:
                continue
        elif u < 0.6:
            beta = led.lend(f"offsets {step}", [a0 * tau, (a0 + float(r.uniform(0.2, 1))) * tau])
        cut = (g, beta)
        if r.random() < 0.2:
            cut = [g, beta]
        led.items.append(("caller", f"cut {step}", cut, copy.deepcopy(cut)))
        st = E.apply_cut(case, sp, kind, cut)
        led.audit(f"{cls} {kind} step {step} {st.name}")
        if twin is not None:
            case.hit("copies")
            o = E.observe(case, twin[0])
            case.check(
                np.array_equal(o.xc, twin[1].xc) and E.same_shape(o, twin[1]), "updating a space changed a copy made earlier", space=cls, step=step
            )
            case.check(
                (bool(twin[0].no_defer_trick), bool(twin[0].helper.use_parallel_cut)) == twin[2],
                "changing the settings of a space changed those of a copy", space=cls, step=step,
            )
        if r.random() < 0.25:
            t = copy.deepcopy(sp)
            twin = (t, E.observe(case, t), (bool(sp.no_defer_trick), bool(sp.helper.use_parallel_cut)))
        if r.random() < 0.1:
            sp.no_defer_trick = not sp.no_defer_trick
        if r.random() < 0.1:
            sp.helper.use_parallel_cut = not sp.helper.use_parallel_cut
        if r.random() < 0.15:
            x = led.lend(f"assigned center {step}", np.array(sp.xc(), dtype=float) + 0.01 * r.normal(size=n))
            case.sut(sp.set_xc, x)
            led.audit(f"{cls} set_xc step {step}")
    case.hit("space-histories")
    case.signature("space", cls, n, step)


class Recorder:
    """Any oracle; every point it is shown and every cut it hands on is entered."""

    def __init__(self, om, led):
        self.om, self.led = om, led
        self.k = 0

    def _note(self, x, cut):
        self.k += 1
        self.led.receive(f"point shown in call {self.k}", x)
        if cut is not None:
            self.led.lend(f"cut of call {self.k}", cut[0])

    def assess_feas(self, x):
        cut = self.om.assess_feas(x)
        self._note(x, cut)
        return cut

    def assess_optim(self, x, gamma):
        cut, g = self.om.assess_optim(x, gamma)
        self._note(x, cut)
        return cut, g

    def assess_optim_q(self, x, gamma, retry):
        cut, xq, g, alt = self.om.assess_optim_q(x, gamma, retry)
        self._note(x, cut)
        self.led.receive(f"discrete point {self.k}", xq)
        return cut, xq, g, alt

    def update(self, gamma):
        self.om.update(gamma)


class Shrinking:
    """Polyhedron moved by a parameter; for the bisection adaptor."""

    def __init__(self, case, n):
        r = case.rng
        self.A = np.vstack([r.normal(size=(2 * n, n)), np.eye(n), -np.eye(n)])
        self.A /= np.linalg.norm(self.A, axis=1)[:, None]
        self.b = self.A @ r.normal(size=n) - 0.3
        self.g = 0.0

    def update(self, gamma):
        self.g = gamma

    def assess_feas(self, x):
        v = self.A @ x - self.b - float(self.g)
        k = int(np.argmax(v))
        return None if v[k] <= 0 else (self.A[k].copy(), float(v[k]))


def solvers(case):
    r = case.rng
    led = Ledger(case, readonly=r.random() < 0.5)
    cls = str(r.choice(list(E.SPACES)))
    opts = Options()
    opts.max_iters = int(r.choice([3, 20, 60]))
    opts.tolerance = float(r.choice([1e-3, 1e-8]))
    if r.random() < 0.2:
        opts.tolerance = float(10.0 ** r.uniform(-25, 0)) if r.random() < 0.7 else float(r.choice([0.0, -1.0]))
    before = (opts.max_iters, opts.tolerance, opts.verbose)
    which = str(r.choice(["lmi", "profit", "profit_q", "robust", "lowpass", "bisect"]))
    p, A, k, a, v = PM.draw(case)
    k = max(k, 1.0)
    a, v = led.lend("elasticities", a), led.lend("costs", v)
    x0 = led.lend("initial center", r.normal(size=2))
    sp = case.sut(E.SPACES[cls], float(r.uniform(20, 100)), x0)
    if which == "profit":
        x, g, _ = case.sut(cutting_plane_optim, Recorder(ProfitOracle((p, A, k), a, v), led), sp, 0.0, opts)
        led.receive("solution", x)
    elif which == "robust":
        x, g, _ = case.sut(cutting_plane_optim, Recorder(ProfitRbOracle((p, A, k), a, v, (0.01, 0.01, 0.0, 0.0, 0.1)), led), sp, 0.0, opts)
        led.receive("solution", x)
    elif which == "profit_q":
        x, g, _ = case.sut(cutting_plane_optim_q, Recorder(ProfitQOracle((p, A, k), a, v), led), sp, 0.0, opts)
        led.receive("solution", x)
    elif which == "lowpass":
        n = int(r.integers(3, 9))
        sp = case.sut(E.SPACES[cls], 40.0, led.lend("filter start", np.zeros(n)))
        om = LowpassOracle(n, 0.1, 0.35, 0.8, 1.2, 0.1)
        x, g, _ = case.sut(cutting_plane_optim, Recorder(om, led), sp, 0.1, opts)
        led.receive("solution", x)
    elif which == "lmi":
        m = int(r.integers(2, 5))
        F = [(lambda M: M + M.T)(r.normal(size=(m, m))) for _ in range(2)]
        B = 3 * np.eye(m) + sum(F[i] * x0[i] for i in (0, 1)) * 0.3
        led.lend("matrices", F)
        led.lend("constant matrix", B)
        om = (LMIOracle if r.random() < 0.5 else LMIOldOracle)(F, B)
        x, _ = case.sut(cutting_plane_feas, Recorder(om, led), sp, opts)
        led.receive("solution", x)
    else:
        n = int(r.integers(2, 5))
        start = led.lend("bisection start", r.normal(size=n))
        sp = case.sut(E.SPACES[cls], 60.0, start)
        ad = case.sut(BSearchAdaptor, Recorder(Shrinking(case, n), led), sp, opts)
        for _ in range(int(r.integers(1, 6))):
            case.sut(ad.assess_bs, float(r.uniform(-1, 4)))
            led.receive("adaptor point", ad.x_best)
            led.audit("bisection probe")
        iv = led.lend("interval", (0.0, 5.0))
        bo = Options()
        bo.tolerance = 1e-2
        case.sut(bsearch, ad, iv, bo)
        led.receive("adaptor point", ad.x_best)
    case.check((opts.max_iters, opts.tolerance, opts.verbose) == before, "the options were modified", before=before)
    led.audit("after the run")
    # what was returned survives further use of the same space
    for _ in range(3):
        n = len(np.asarray(sp.xc()))
        case.sut(sp.update_central_cut, (led.lend("later gradient", r.normal(size=n)), 0.0))
        led.audit("after further use of the space")
    case.hit("solver-runs")
    case.signature("solver", which, cls, opts.max_iters)


def oracles(case):
    r = case.rng
    led = Ledger(case, readonly=r.random() < 0.5)
    which = str(r.choice(["lmi", "lmi_old", "lmi0", "lowpass", "profit", "robust", "profit_q"]))
    n = int(r.integers(1, 5))
    m = int(r.integers(1, 6))
    if which.startswith("lmi"):
        whole = r.random() < 0.3
        F = [(lambda M: M + M.T)(r.integers(-3, 4, (m, m)) if whole else r.normal(size=(m, m))) for _ in range(n)]
        if r.random() < 0.3:
            F = [np.asfortranarray(M) for M in F]
        if r.random() < 0.15:
            F = [M.astype(np.float32) for M in F]
        led.lend("matrices", F)
        B = led.lend("constant matrix", 4 * np.eye(m, dtype=int if whole and r.random() < 0.5 else float))
        om = case.sut({"lmi": lambda: LMIOracle(F, B), "lmi_old": lambda: LMIOldOracle(F, B), "lmi0": lambda: LMI0Oracle(F)}[which])

        def ask(x):
            return case.sut(om.assess_feas, x)
    elif which == "lowpass":
        n = int(r.integers(2, 8))
        om = case.sut(LowpassOracle, n, 0.15, 0.4, 0.5, 1.5, 0.4)
        opt = r.random() < 0.5

        def ask(x):
            return case.sut(om.assess_optim, x, 0.4) if opt else case.sut(om.assess_feas, x)
    else:
        n = 2
        p, A, k, a, v = PM.draw(case)
        k = max(k, 1.0)
        led.lend("elasticities", a)
        led.lend("costs", v)
        prm = led.lend("parameters", (p, A, k))
        if which == "profit":
            om = case.sut(ProfitOracle, prm, a, v)
        elif which == "robust":
            om = case.sut(ProfitRbOracle, prm, a, v, led.lend(
                "uncertainty",
                (0.02, 0.03, 0.01 * p, 0.01 * k, 0.1) if r.random() < 0.5
                else (float(r.uniform(0, 0.05)), float(r.uniform(0, 0.05)), float(r.uniform(0, 0.5)) * p,
                      float(r.uniform(0, 0.5)) * k, float(10.0 ** r.uniform(-2, 1.3))),
            ))
        else:
            om = case.sut(ProfitQOracle, prm, a, v)
        opt, _ = PM.Model(p, A, k, a, v).best()

        def ask(x):
            x = led.lend("point", opt + 0.5 * x)
            g = float(r.choice([0.0, 1.0]))
            return case.sut(om.assess_optim_q, x, g, False) if which == "profit_q" else case.sut(om.assess_optim, x, g)
    for i in range(int(r.integers(2, 9))):
        x = led.lend(f"point {i}", r.normal(size=n) * float(r.choice([0.1, 1.0])))
        led.receive(f"answer {i}", ask(x))
        led.audit(f"{which} call {i}")
    case.hit("oracle-sequences")
    case.signature("oracle", which, n, m, i)


def algebra(case):
    r = case.rng
    led = Ledger(case, readonly=r.random() < 0.5)
    n = int(r.integers(1, 8))
    mgr = case.sut(LDLTMgr, n)
    for i in range(3):
        M = r.normal(size=(n, n))
        S = led.lend(f"matrix {i}", M @ M.T + (0.5 if r.random() < 0.6 else -1.0) * np.eye(n))
        if case.sut(mgr.factorize, S):
            led.receive(f"square root {i}", case.sut(mgr.sqrt))
        else:
            case.sut(mgr.witness)
            case.sut(mgr.sym_quad, S)
        led.audit("factorization")
        P = led.lend(f"system {i}", M @ M.T + np.eye(n))
        b = led.lend(f"right-hand side {i}", r.normal(size=n) if r.random() < 0.8 else r.integers(-3, 4, n))
        x0 = None
        if r.random() < 0.7:
            x0 = led.lend(f"guess {i}", r.normal(size=n) if r.random() < 0.8 else np.zeros(n))
        try:
            led.receive(f"solution {i}", case.sut(conjugate_gradient, P, b, x0, allow=(ValueError,), tol=1e-6))
        except ValueError as e:
            case.check("read-only" not in str(e), "the solver tried to write to its input", error=str(e))
        led.audit("linear solve")
        h = led.lend(f"filter {i}", np.concatenate([[3.0 * n], r.normal(size=n - 1)]))
        ac = led.receive(f"autocorrelation {i}", case.sut(inverse_spectral_fact, h))
        led.audit("autocorrelation")
        q = led.lend(f"spectrum {i}", np.array(ac))
        led.receive(f"factor {i}", case.sut(spectral_fact, q))
        led.audit("spectral factorization")
    case.hit("linear-algebra")
    case.signature("algebra", n, led.readonly)


FAMILIES = {
    "spaces": (spaces, 1600, 12000),
    "solvers": (solvers, 800, 6000),
    "oracles": (oracles, 2500, 20000),
    "algebra": (algebra, 900, 6000),
}
