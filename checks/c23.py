"""C23: computations do not influence each other: repeated, interleaved, nested, in threads."""

import copy
import decimal
import gc
import logging
import os
import random
import sys
import threading
import warnings

import numpy as np

from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.cutting_plane import (
    BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q,
)
from ellalgo.ell_config import Options
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle, create_lowpass_case
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact
from vlib import ellipsoid as E

PROPERTY = "C23"
VOLUME = 4
ANCHORS = [
    "ell.py", "ell_stable.py", "ell_calc.py", "ell_calc_core.py", "ell_config.py", "cutting_plane.py",
    "conjugate_gradient.py", "oracles/ldlt_mgr.py", "oracles/lmi_oracle.py", "oracles/lmi_old_oracle.py",
    "oracles/lmi0_oracle.py", "oracles/lowpass_oracle.py", "oracles/profit_oracle.py", "oracles/spectral_fact.py",
]
# isolation, not reach, is the subject here
UNREACHED_OK = ("",)
RULE = (
    "seeded computations on every component are recorded alone, then again repeated, interleaved "
    "call by call with others, nested inside each other's oracle calls, and in preempted threads; "
    "transcripts must agree; distinct = (component mix, schedule hash)"
)
REQUIRED = {
    "solo": 1500, "interleaved-steps": 8000, "schedules": 400, "threads": 300, "thread-switch-overlap": 100, "nested": 150,
    "defaults": 100, "settings": 100, "process-state": 5000, "process": 400,
}
ASSUMPTIONS = ["transcripts are compared to 1e-9 relative (discrete parts exactly), over at most a few dozen steps"]


def call(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (ValueError, RuntimeError, AssertionError, ZeroDivisionError) as e:
        return ("raised", type(e).__name__)


# ------------------------------------------------------------- computations, as generators
def g_space(seed, cls):
    r = np.random.default_rng(seed)
    n = int(r.integers(2, 6)) if r.random() < 0.9 else int(r.integers(6, 24))
    sp = E.SPACES[cls](float(r.uniform(1, 50)) if r.random() < 0.5 else r.uniform(1, 9, n), r.normal(size=n))
    if r.random() < 0.3:
        sp.no_defer_trick = True
    if r.random() < 0.3:
        sp.helper.use_parallel_cut = False
    for _ in range(10):
        kind = str(r.choice(E.KINDS))
        b0 = float(r.uniform(0, 0.5))
        beta = b0 if r.random() < 0.5 else (b0, b0 + float(r.uniform(0.1, 1)))
        g = r.normal(size=n)
        m = {"bias": sp.update_bias_cut, "central": sp.update_central_cut, "q": sp.update_q}[kind]
        st = call(m, (g, beta))
        yield [getattr(st, "name", st), np.array(sp.xc(), dtype=float), float(sp.tsq())]


def g_lmi(seed, which):
    r = np.random.default_rng(seed)
    n, m = int(r.integers(1, 4)), int(r.integers(2, 5))
    F = [(lambda M: M + M.T)(r.normal(size=(m, m))) for _ in range(n)]
    B = 2 * np.eye(m)
    om = {"lmi": lambda: LMIOracle(F, B), "old": lambda: LMIOldOracle(F, B), "zero": lambda: LMI0Oracle(F)}[which]()
    for _ in range(10):
        yield call(om.assess_feas, r.normal(size=n) * 0.5)


def g_lowpass(seed, stock):
    r = np.random.default_rng(seed)
    n = int(r.integers(2, 7))
    om = create_lowpass_case(n) if stock else LowpassOracle(n, 0.15, 0.4, 0.5, 1.5, float(r.uniform(0.2, 0.5)))
    x = np.zeros(n)
    x[0] = 0.4
    for i in range(12):
        y = x + r.normal(size=n) * 0.1
        if r.random() < 0.5:
            yield call(om.assess_feas, y)
        else:
            yield call(om.assess_optim, y, float(r.uniform(0.3, 1.0)))


def g_profit(seed, which):
    r = np.random.default_rng(seed)
    a, v = np.array([0.1, 0.4]), np.array([10.0, 35.0])
    p = (20.0, 40.0, float(r.uniform(20, 60)))
    om = {
        "plain": lambda: ProfitOracle(p, a, v),
        "robust": lambda: ProfitRbOracle(p, a, v, (0.003, 0.007, 1.0, 1.0, 1.0)),
        "q": lambda: ProfitQOracle(p, a, v),
    }[which]()
    for _ in range(12):
        x = np.array([2.0, 2.0]) + r.normal(size=2) * 2
        g = float(r.choice([0.0, 100.0, 1000.0]))
        yield call(om.assess_optim_q, x, g, bool(r.random() < 0.2)) if which == "q" else call(om.assess_optim, x, g)


def g_ldlt(seed, _):
    r = np.random.default_rng(seed)
    n = int(r.integers(2, 6)) if r.random() < 0.9 else int(r.integers(6, 24))
    mgr = LDLTMgr(n)
    for _ in range(8):
        M = r.normal(size=(n, n))
        S = M @ M.T + float(r.choice([1.0, -1.0])) * np.eye(n)
        ok = call(mgr.factorize, S)
        yield [ok, call(mgr.sqrt) if ok else [call(mgr.witness), np.array(mgr.wit), call(mgr.sym_quad, S)]]


def g_numeric(seed, _):
    r = np.random.default_rng(seed)
    for _ in range(6):
        n = int(r.integers(1, 6)) if r.random() < 0.8 else int(r.integers(6, 40))
        M = r.normal(size=(n, n))
        u = 1.0 if r.random() < 0.5 else float(10.0 ** r.uniform(-8, 8))  # the user's units
        A, b = (M @ M.T / n + np.eye(n)) * u, r.normal(size=n) * u
        yield call(conjugate_gradient, A, b)
        yield call(conjugate_gradient, A, b, r.normal(size=n), tol=1e-3)
        yield call(conjugate_gradient, A, b, tol=1e-9, max_iter=2)
        h = np.concatenate([[3.0 * n], r.normal(size=n - 1)]) * u
        yield call(spectral_fact, call(inverse_spectral_fact, h))


class Walls:
    """Small polyhedral feasibility problem; optionally runs something inside each call."""

    def __init__(self, r, n, inner=None):
        self.A = np.vstack([r.normal(size=(2 * n, n)), np.eye(n), -np.eye(n)])
        self.A /= np.linalg.norm(self.A, axis=1)[:, None]
        self.c = r.normal(size=n)
        self.b = self.A @ self.c + 0.05
        self.g = 0.0
        self.k = 0
        self.inner = inner

    def update(self, gamma):
        self.g = gamma

    def assess_feas(self, x):
        if self.inner is not None:
            self.inner()
        v = self.A @ x - self.b - float(self.g)
        m = len(v)
        for _ in range(m):
            self.k = (self.k + 1) % m
            if v[self.k] > 0:
                return self.A[self.k].copy(), float(v[self.k])
        return None

    def assess_optim(self, x, gamma):
        cut = self.assess_feas(x)
        if cut is not None:
            return cut, None
        f = float(x[0])
        e = np.zeros(len(x))
        e[0] = 1.0
        if f > gamma:
            return (e, f - gamma), None
        return (e, 0.0), f

    def assess_optim_q(self, x, gamma, retry):
        cut, g = self.assess_optim(x, gamma)
        return cut, np.array(x), g, not retry


def g_solver(seed, which, inner=None):
    """Whole runs with explicit and with default options, one per step."""
    r = np.random.default_rng(seed)
    for _ in range(4):
        n = int(r.integers(2, 4))
        cls = E.SPACES[str(r.choice(list(E.SPACES)))]
        om = Walls(r, n, inner)
        sp = cls(30.0, r.normal(size=n))
        o = Options()
        o.max_iters, o.tolerance = int(r.choice([5, 25])), 1e-4
        if which == "feas":
            yield call(cutting_plane_feas, om, sp, o)
        elif which == "feas-default":
            yield call(cutting_plane_feas, om, sp)
        elif which == "optim-default":
            yield call(cutting_plane_optim, om, sp, 1e9)
        elif which == "optim_q-default":
            yield call(cutting_plane_optim_q, om, sp, 1e9)
        elif which == "optim":
            yield call(cutting_plane_optim, om, sp, 1e9, o)
        elif which == "optim_q":
            yield call(cutting_plane_optim_q, om, sp, 1e9, o)
        else:
            ad = BSearchAdaptor(om, sp) if which == "bisect-default" else BSearchAdaptor(om, sp, o)
            b = Options()
            b.tolerance = 0.05
            res = call(bsearch, ad, (-2.0, 3.0), b)
            yield [res, np.array(ad.x_best, dtype=float)]


MENU = (
    [(g_space, c) for c in E.SPACES] * 2 + [(g_lmi, w) for w in ("lmi", "old", "zero")]
    + [(g_lowpass, s) for s in (True, False)] * 2 + [(g_profit, w) for w in ("plain", "robust", "q")]
    + [(g_ldlt, 0), (g_numeric, 0)] + [(g_solver, w) for w in ("feas", "feas-default", "optim", "optim_q", "bisect")]
)


def solo(spec):
    fn, arg, seed = spec
    return [copy.deepcopy(s) for s in fn(seed, arg)]


def agree(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(agree(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-11
    return type(a) is type(b) and a == b


def draw(case, k):
    r = case.rng
    out = []
    same = r.random() < 0.5  # several instances of one component are the likeliest to collide
    fn, arg = MENU[int(r.integers(len(MENU)))]
    for _ in range(k):
        if not (same or r.random() < 0.3):
            fn, arg = MENU[int(r.integers(len(MENU)))]
        out.append((fn, arg, int(r.integers(2**31))))
    return out


def name(specs):
    return tuple(f"{f.__name__}:{a}" for f, a, _ in specs)


def verdict(case, ref, got, specs, how):
    for i, (x, y) in enumerate(zip(ref, got)):
        for step, (p, q) in enumerate(zip(x, y)):
            case.check(agree(p, q), f"{how}: a computation came out differently", computation=name([specs[i]]), seed=specs[i][2], step=step, alone=p, now=q, mix=name(specs))
        case.check(len(x) == len(y), f"{how}: another number of steps", computation=name([specs[i]]))


def interleave(case):
    r = case.rng
    specs = draw(case, int(r.integers(2, 5)))
    ref = [solo(s) for s in specs]
    case.hit("solo", len(specs))
    if r.random() < 0.3:
        verdict(case, ref, [solo(s) for s in specs], specs, "repeated")
    gens = [f(s, a) for f, a, s in specs]
    got = [[] for _ in specs]
    live = list(range(len(specs)))
    order = []
    while live:
        i = live[int(r.integers(len(live)))]
        order.append(i)
        try:
            got[i].append(copy.deepcopy(next(gens[i])))
            case.hit("interleaved-steps")
        except StopIteration:
            live.remove(i)
    case.hit("schedules")
    verdict(case, ref, got, specs, "interleaved")
    case.signature("mix", name(specs), tuple(order))
    case.show(mix=name(specs), order=order)


def threads(case):
    r = case.rng
    specs = draw(case, int(r.integers(2, 5)))
    ref = [solo(s) for s in specs]
    case.hit("solo", len(specs))
    got = [None] * len(specs)
    spans = []
    gate = threading.Barrier(len(specs))

    def work(i):
        gate.wait()
        out = []
        f, a, s = specs[i]
        for step in f(s, a):
            spans.append(i)
            out.append(copy.deepcopy(step))
        got[i] = out

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(specs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    case.check(all(g is not None for g in got), "a thread did not finish its computation", mix=name(specs))
    case.hit("threads", len(specs))
    switches = sum(1 for a, b in zip(spans, spans[1:]) if a != b)
    if switches >= len(specs):
        case.hit("thread-switch-overlap")
    verdict(case, ref, got, specs, "threaded")
    case.signature("threads", name(specs), tuple(spans))


def nested(case):
    """A solver run from inside another solver's oracle."""
    r = case.rng
    outer = str(r.choice(["feas", "optim", "optim_q", "bisect"]))
    seed = int(r.integers(2**31))
    ref = [copy.deepcopy(s) for s in g_solver(seed, outer)]
    inner = draw(case, 1)[0]
    iref = solo(inner)
    bad = []
    left = [6]

    def run_inner():
        if left[0] <= 0:
            return
        left[0] -= 1
        got = solo(inner)
        if not (len(got) == len(iref) and all(agree(p, q) for p, q in zip(iref, got))):
            bad.append(got)

    got = [copy.deepcopy(s) for s in g_solver(seed, outer, run_inner)]
    case.hit("nested")
    case.check(not bad, "a computation nested in another one came out differently", inner=name([inner]), outer=outer)
    verdict(case, [ref], [got], [(g_solver, outer, seed)], "with computations nested inside")
    case.signature("nested", outer, name([inner]))


def defaults(case):
    """Defaults stay defaults, whatever other callers choose for themselves."""
    r = case.rng
    fresh = Options()
    was = (fresh.max_iters, fresh.tolerance, fresh.verbose)
    seed = int(r.integers(2**31))
    which = str(r.choice(["feas-default", "optim-default", "optim_q-default", "bisect-default"]))
    ref = [copy.deepcopy(s) for s in g_solver(seed, which)]
    mine = Options()
    u = r.random()
    if u < 0.5:
        mine.max_iters, mine.tolerance, mine.verbose = 1, 1e9, True
    elif u < 0.8:
        mine.max_iters, mine.tolerance = int(r.choice([0, 1, 3, 5000])), float(10.0 ** r.uniform(-25, 3))
    kept = (mine.max_iters, mine.tolerance, mine.verbose)
    rr = np.random.default_rng(seed + 1)
    for _ in range(2):
        om, sp = Walls(rr, 2), E.SPACES[str(r.choice(list(E.SPACES)))](30.0, rr.normal(size=2))
        call(cutting_plane_feas, om, sp, mine)
        call(cutting_plane_optim, Walls(rr, 2), E.SPACES["Ell"](30.0, rr.normal(size=2)), 1e9, mine)
        call(cutting_plane_optim, Walls(rr, 2), E.SPACES["Ell"](30.0, rr.normal(size=2)), 1e9)
        call(cutting_plane_optim_q, Walls(rr, 2), E.SPACES["Ell"](30.0, rr.normal(size=2)), 1e9, mine)
        ad = BSearchAdaptor(Walls(rr, 2), E.SPACES["Ell"](30.0, rr.normal(size=2)), mine)
        few = Options()
        few.max_iters = 4
        call(bsearch, ad, (-2.0, 3.0), few)
        ad = BSearchAdaptor(Walls(rr, 2), E.SPACES["Ell"](30.0, rr.normal(size=2)))
        call(ad.assess_bs, 0.5)
    again = [copy.deepcopy(s) for s in g_solver(seed, which)]
    verdict(case, [ref], [again], [(g_solver, which, seed)], "after other callers used their own options")
    now = Options()
    case.check((now.max_iters, now.tolerance, now.verbose) == was, "the default options changed", was=was)
    case.check((mine.max_iters, mine.tolerance, mine.verbose) == kept, "the caller's options changed", was=kept)
    case.hit("defaults")
    case.signature("defaults", seed % 50)


def settings(case):
    """Switches set on one space concern that space only."""
    r = case.rng
    cls = str(r.choice(list(E.SPACES)))
    n = int(r.integers(2, 5))
    x0 = r.normal(size=n)
    cuts = []
    for _ in range(6):
        b0 = float(r.uniform(0, 0.2))
        cuts.append((str(r.choice(E.KINDS)), r.normal(size=n), (b0, b0 + float(r.uniform(0.05, 0.4)))))

    def play(sp):
        out = []
        for kind, g, beta in cuts:
            m = {"bias": sp.update_bias_cut, "central": sp.update_central_cut, "q": sp.update_q}[kind]
            st = call(m, (g, beta))
            out.append([getattr(st, "name", st), np.array(sp.xc(), dtype=float), float(sp.tsq())])
        return out

    ref = play(E.SPACES[cls](20.0, x0.copy()))
    early = E.SPACES[cls](20.0, x0.copy())
    odd = E.SPACES[str(r.choice(list(E.SPACES)))](20.0, x0.copy())
    odd.helper.use_parallel_cut = False
    odd.no_defer_trick = True
    odd.set_xc(r.normal(size=n))
    play(odd)
    for label, sp in (("created before", early), ("created after", E.SPACES[cls](20.0, x0.copy()))):
        got = play(sp)
        for p, q in zip(ref, got):
            case.check(agree(p, q), f"settings of another space leaked into one {label} it", alone=p, now=q, space=cls)
    case.hit("settings")
    case.signature("settings", cls, n)


def process_state():
    """What is shared by everything in the process."""
    return {
        "floating-point error handling": np.geterr(),
        "error callback": np.geterrcall(),
        "numpy's global generator": np.random.get_state()[1].tobytes() + repr(np.random.get_state()[2:]).encode(),
        "the global generator": hash(random.getstate()),
        "warning filters": [str(f) for f in warnings.filters],
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "working directory": os.getcwd(),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "threads": sorted(t.name for t in threading.enumerate()),
        "decimal context": repr(decimal.getcontext()),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "module path": tuple(sys.path),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "trace": (sys.gettrace(), sys.getprofile()),
    }


def process(case):
    """A computation leaves the state of the process alone, and does not depend on it."""
    r = case.rng
    spec = draw(case, 1)[0]
    old = (np.geterr(), np.random.get_state(), random.getstate(), sys.getrecursionlimit(), np.get_printoptions(), decimal.getcontext().prec)

    def disturb():  # some state of its own, so that a fixed assignment shows
        np.seterr(**{k: str(r.choice(["ignore", "warn", "raise"])) for k in ("divide", "over", "invalid")}, under="ignore")
        np.random.seed(int(r.integers(2**31)))
        random.seed(int(r.integers(2**31)))
        sys.setrecursionlimit(int(r.integers(3000, 9000)))
        np.set_printoptions(precision=int(r.integers(3, 15)))
        decimal.getcontext().prec = int(r.integers(20, 60))

    try:
        disturb()
        before = process_state()
        ref = solo(spec)
        after = process_state()
        for k in before:
            case.check(before[k] == after[k], "a computation changed the state of the process", state=k, computation=name([spec]))
            case.hit("process-state")
        disturb()
        with warnings.catch_warnings():
            warnings.simplefilter("error" if r.random() < 0.5 else "ignore")
            got = solo(spec)
    finally:
        np.seterr(**old[0])
        np.random.set_state(old[1])
        random.setstate(old[2])
        sys.setrecursionlimit(old[3])
        np.set_printoptions(**old[4])
        decimal.getcontext().prec = old[5]
    verdict(case, [ref], [got], [spec], "under another state of the process")
    case.hit("process")
    case.signature("process", name([spec]), spec[2] % 97)


FAMILIES = {
    "process": (process, 700, 5000),
    "interleave": (interleave, 1500, 12000),
    "threads": (threads, 400, 3000),
    "nested": (nested, 250, 2000),
    "defaults": (defaults, 150, 800),
    "settings": (settings, 400, 2000),
}
