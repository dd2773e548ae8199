"""C20: the linear solver returns a solution to tolerance, or says it has none."""

import numpy as np

from ellalgo.conjugate_gradient import conjugate_gradient

PROPERTY = "C20"
VOLUME = 4
ANCHORS = ["conjugate_gradient.py"]
RULE = (
    "positive definite systems with chosen spectra and numbers of distinct eigenvalues, initial "
    "guesses (none, random, exact, integer), tolerances and iteration budgets at, below and above "
    "what an extended-precision reference needs; distinct = (size, distinct eigenvalues, guess, "
    "budget class, outcome)"
)
REQUIRED = {
    "solved": 1500, "refused": 400, "guess:exact": 100, "guess:random": 300, "guess:int": 100, "zero-rhs": 100,
    "tight-budget": 500, "budget-too-small": 300, "zero-budget": 50, "lengthy": 800,
}


def reference(A, b, x, tol, cap):
    """Residual norms per iteration of conjugate gradients in extended precision."""
    A, b, x = A.astype(np.longdouble), b.astype(np.longdouble), x.astype(np.longdouble)
    r = b - A @ x
    p = r.copy()
    rr = r @ r
    out = [float(np.sqrt(rr))]
    for _ in range(cap):
        if out[-1] < tol * 1e-6 or rr == 0:
            break
        Ap = A @ p
        al = rr / (p @ Ap)
        r = r - al * Ap
        new = r @ r
        out.append(float(np.sqrt(new)))
        p = r + new / rr * p
        rr = new
    return out


def system(case):
    r = case.rng
    n = int(r.integers(1, 9)) if r.random() < 0.8 else int(r.integers(9, 41))
    if r.random() < 0.05:
        n = case.hot_int(1, 60, n)
    k = int(r.integers(1, n + 1))
    kind = str(r.choice(["spectral", "integer", "diag", "gram"]))
    if kind == "spectral":
        vals = 10.0 ** r.uniform(0, 3, k)
        ev = vals[np.concatenate([np.arange(k), r.integers(k, size=n - k)]).astype(int)]
        Q, _ = np.linalg.qr(r.normal(size=(n, n)))
        A = (Q * ev) @ Q.T
        A = (A + A.T) / 2
    elif kind == "integer":
        M = r.integers(-3, 4, (n, n))
        A = M @ M.T + np.eye(n, dtype=int)
    elif kind == "diag":
        vals = 10.0 ** r.uniform(0, 2, k)
        A = np.diag(vals[np.concatenate([np.arange(k), r.integers(k, size=n - k)]).astype(int)])
    else:
        M = r.normal(size=(n + 3, n))
        A = M.T @ M + 0.1 * np.eye(n)
    if kind in ("spectral", "gram") and r.random() < 0.3:
        A = A * (10.0 ** float(r.uniform(-6, 6)) if r.random() < 0.7 else case.hot(1e-12, 1e12, 1.0))
    return n, kind, A


def solve(case):
    r = case.rng
    n, kind, A = system(case)
    ev = np.linalg.eigvalsh(A.astype(float))
    distinct = 1 + int(np.sum(np.diff(ev) > 1e-6 * ev[-1]))
    x_true = r.integers(-3, 4, n).astype(float) if kind == "integer" else r.normal(size=n)
    b = A @ x_true
    if kind == "integer" and r.random() < 0.5:
        b = np.rint(b).astype(int)
    u = r.random()
    if u < 0.1:
        b = np.zeros(n)
        x_true = np.zeros(n)
        case.hit("zero-rhs")
    elif u < 0.2:  # lies in few eigenvectors
        w, V = np.linalg.eigh(A.astype(float))
        b = V[:, -1] * w[-1]
        x_true = V[:, -1]
    if r.random() < 0.2 and b.dtype == float:
        c = 10.0 ** float(r.uniform(-6, 6)) if r.random() < 0.7 else case.hot(1e-12, 1e12, 1.0)
        b, x_true = b * c, x_true * c
    guess = str(r.choice(["none", "random", "exact", "int", "none"]))
    x0 = None
    if guess == "random":
        x0 = x_true + r.normal(size=n) * 10.0 ** float(r.uniform(-3, 2)) * (float(np.abs(x_true).max()) + 1e-3)
    elif guess == "exact":
        x0 = x_true.copy()
    elif guess == "int":
        x0 = r.integers(-3, 4, n)
    case.hit("guess:" + guess)
    start = np.zeros(n) if x0 is None else x0.astype(float)
    bf, Af = b.astype(float), A.astype(float)
    r0 = float(np.linalg.norm(bf - Af @ start))
    size = float(np.abs(Af).max()) * (float(np.abs(start).max()) + float(np.abs(x_true).max())) + float(np.abs(bf).max())
    tol = max(10.0 ** float(r.uniform(-8, -2)) * max(float(np.linalg.norm(bf)), r0), 1e-10 * n * size, 1e-300)
    ref = reference(Af, bf, start, tol, 4 * n + 30)
    need = next((i for i, v in enumerate(ref) if v < tol * 0.5), None)
    early = next((i for i, v in enumerate(ref) if v < tol * 2.0), None)
    cls = str(r.choice(["tight", "small", "default", "ample", "zero"]))
    if need is None:
        cls = "default"
    # rounding does not shift iterations
    easy = n <= 4 and ev[-1] <= 30 * ev[0] and tol >= 1e-7 * r0
    slack = 0 if easy else 1 + n // 8 + (3 if ev[-1] > 1e2 * ev[0] else 0)
    kw = {"tol": tol}
    if cls == "tight":
        kw["max_iter"] = need + slack
        case.hit("tight-budget")
    elif cls == "small":
        if not early or early < 2:
            kw["max_iter"] = 0
        else:
            kw["max_iter"] = int(r.integers(0, early))
            case.hit("budget-too-small")
    elif cls == "ample":
        kw["max_iter"] = int(10 * n + 50)
    elif cls == "zero":
        kw["max_iter"] = 0
    if kw.get("max_iter") == 0:
        case.hit("zero-budget")
    if kind == "integer" and r.random() < 0.3:  # whole numbers in narrow types
        for t in (np.int16, np.int32, np.uint8, np.float32, np.float16, np.longdouble):
            if r.random() < 0.5 and np.array_equal(A.astype(t), A):
                A = A.astype(t)
                break
        for t in (np.int16, np.int32, np.float32, np.float16):
            if r.random() < 0.5 and np.array_equal(b.astype(t), b):
                b = b.astype(t)
                break
        case.hit("narrow-types")
    keep = [np.array(t, copy=True) for t in (A, b)] + [None if x0 is None else x0.copy()]
    wit = dict(A=A, b=b, x0=x0, tol=tol, max_iter=kw.get("max_iter"), reference=ref[:60], guess=guess)
    try:
        x = case.sut(conjugate_gradient, A, b, x0, allow=(ValueError,), **kw)
    except ValueError:
        x = None
    case.check(
        np.array_equal(A, keep[0]) and np.array_equal(b, keep[1]) and (x0 is None or np.array_equal(x0, keep[2])),
        "the caller's data were modified", **wit,
    )
    if x is None:
        case.hit("refused")
        # a refusal is right only when the budget really is too small
        lim = kw.get("max_iter", 1000)
        case.check(need is None or need + slack > lim or (lim == 0 and ref[0] >= tol * 0.5), "refused although the budget is enough", needed=need, **wit)
        if lim == 0:
            case.check(ref[0] >= tol * 0.5, "refused an initial guess that solves the system", **wit)
    else:
        case.hit("solved")
        x = np.array(x, dtype=float)
        case.check(x.shape == (n,) and bool(np.all(np.isfinite(x))), "malformed solution", x=x, **wit)
        res = float(np.linalg.norm(bf - Af @ x))
        drift = 1e-13 * n * (size + float(np.abs(Af).max()) * float(np.abs(x).max())) * 10
        case.check(res <= tol + drift, "the solution returned misses the tolerance", residual=res, x=x, **wit)
        if "max_iter" in kw and early is not None:
            case.check(early <= kw["max_iter"] + slack, "more iterations than allowed", early=early, **wit)
            if easy:
                case.hit("exact-budget")
        if guess == "exact" and r0 < tol * 0.5:
            case.check(np.array_equal(x, start), "a guess that already solves the system was changed", x=x, **wit)
        if x0 is not None:
            case.check(x is not x0 and not np.shares_memory(x, x0), "the result shares memory with the guess", **wit)
    case.signature(kind, n, distinct, guess, cls, x is None)
    case.show(n=n, kind=kind, distinct=distinct, guess=guess, budget=cls, refused=x is None, iterations=need)


def singular(case):
    """No curvature along the residual: a clear refusal, not an infinite or NaN answer."""
    r = case.rng
    n = int(r.integers(1, 7))
    A = np.zeros((n, n))
    b = r.normal(size=n)
    if r.random() < 0.5 and n > 1:
        A[0, 0] = 1.0
        b[0] = 0.0
    try:
        x = case.sut(conjugate_gradient, A, b, None, tol=1e-8, max_iter=int(r.integers(1, 20)), allow=(ValueError,))
        case.check(False, "an unsolvable system was reported solved", A=A, b=b, x=x)
    except ValueError:
        case.hit("unsolvable")
        case.check(True, "")
    case.signature("singular", n)


def lengthy(case):
    """Larger systems that need tens to hundreds of iterations, budget from the Chebyshev bound."""
    r = case.rng
    n = int(r.integers(41, 240)) if r.random() < 0.8 else int(r.integers(5, 41))
    kappa = 10.0 ** float(r.uniform(1, 4.5))
    kind = str(r.choice(["linear", "log", "ends"]))
    u = np.sort(r.random(n))
    u[0], u[-1] = 0.0, 1.0
    ev = 1 + (kappa - 1) * u if kind == "linear" else kappa**u if kind == "log" else np.where(u < 0.5, 1 + u, kappa * (1 - 0.3 * (1 - u)))
    ev = ev * 10.0 ** float(r.uniform(-6, 6))
    if r.random() < 0.5:
        Q = np.eye(n)
        v = r.normal(size=n)
        v /= np.linalg.norm(v)
        Q -= 2 * np.outer(v, v)
        A = (Q * ev) @ Q.T
        A = (A + A.T) / 2
    else:
        A = np.diag(ev[r.permutation(n)])
    x_true = r.normal(size=n)
    b = A @ x_true
    x0 = x_true + r.normal(size=n) if r.random() < 0.4 else None
    start = np.zeros(n) if x0 is None else x0
    r0 = float(np.linalg.norm(b - A @ start))
    tol = 10.0 ** float(r.uniform(-10, -1)) * r0
    rho = (np.sqrt(kappa) - 1) / (np.sqrt(kappa) + 1)
    need = int(np.ceil(np.log(2 * np.sqrt(kappa) * r0 / tol) / -np.log(rho)) * 1.3) + 5
    kw = {} if need <= 1000 and r.random() < 0.5 else {"max_iter": need}
    wit = dict(n=n, kind=kind, kappa=kappa, tol=tol, need=need, guess=x0 is not None)
    try:
        x = case.sut(conjugate_gradient, A, b, x0, tol=tol, allow=(ValueError,), **kw)
    except ValueError:
        case.check(False, "refused although the budget is enough", **wit)
        return
    case.hit("lengthy")
    x = np.array(x, dtype=float)
    res = float(np.linalg.norm(b - A @ x))
    drift = 1e-15 * (need + n) * float(ev.max()) * (float(np.linalg.norm(start)) + 2 * float(np.linalg.norm(x_true))) * 4
    case.check(x.shape == (n,) and res <= tol + drift, "the solution returned misses the tolerance", residual=res, drift=drift, **wit)
    case.signature("lengthy", n // 20, kind, need // 20)


FAMILIES = {
    "lengthy": (lengthy, 1600, 12000),
    "solve": (solve, 24000, 240000),
    "singular": (singular, 200, 1000),
}
