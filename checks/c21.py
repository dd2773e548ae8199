"""C21: spectral factorization recovers the minimum-phase filter of an autocorrelation."""

import math

import numpy as np

from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

PROPERTY = "C21"
VOLUME = 3
UNREACHED_OK = ("spectral_fact",)  # handler for linear-algebra errors it never raises
ANCHORS = ["oracles/spectral_fact.py"]
RULE = (
    "filters with chosen zeros inside, outside and reflected across the unit circle, of length 1 "
    "to 260; autocorrelations built directly; invalid and clearly non-positive spectra; distinct = "
    "(family, length, zero pattern, scale class)"
)
REQUIRED = {
    "factored": 800, "mixed-phase": 300, "autocorrelation": 500, "negative": 200, "empty": 20, "non-finite": 100,
    "direct": 300, "length-1": 30, "marginal": 50, "lengthy": 150,
}
ASSUMPTIONS = [
    "one-dimensional input; zeros at radius at most 0.9 (accuracy depends on the distance of "
    "zeros from the unit circle); spectra that dip below zero by less than 1e-2 are not judged"
]


def autocorr(h):
    n = len(h)
    return np.array([math.fsum(float(h[i]) * float(h[i + k]) for i in range(n - k)) for k in range(n)])


def zeros(case, deg, rmax):
    r = case.rng
    out = []
    while len(out) < deg:
        rho = float(r.uniform(0.05, rmax))
        if deg - len(out) >= 2 and r.random() < 0.7:
            z = rho * np.exp(1j * float(r.uniform(0.05, math.pi - 0.05)))
            out += [z, z.conjugate()]
        else:
            out.append(complex(rho * r.choice([-1, 1])))
    return out


def poly(zs):
    return np.real(np.poly(zs)) if zs else np.array([1.0])


def length(case):
    r = case.rng
    u = r.random()
    if u < 0.71:
        return int(r.integers(1, 11))
    if u < 0.75:
        return case.hot_int(1, 64, 5)
    c = [k for k in case.lits["ints"] if 1 <= k <= 64]
    return int(r.choice(c)) if c and u < 0.85 else int(r.integers(11, 41))


def roundtrip(case):
    r = case.rng
    n = length(case)
    # many zeros close to the circle make the coefficients span many decades
    rmax = 0.9 if n <= 10 else 0.6
    zs = zeros(case, n - 1, rmax)
    scale = float(10.0 ** (r.uniform(-1, 2) if r.random() < 0.7 else r.uniform(-20, 20)))
    if r.random() < 0.08:
        scale = case.hot(1e-20, 1e20, scale)
    h = poly(zs) * scale
    flip = [bool(r.random() < 0.4) for _ in zs]
    other = []
    i = 0
    gain = scale
    while i < len(zs):  # reflect whole conjugate pairs
        step = 2 if abs(zs[i].imag) > 0 else 1
        for j in range(i, i + step):
            if flip[i]:
                other.append(1 / zs[j].conjugate())
                gain *= abs(zs[j])
            else:
                other.append(zs[j])
        i += step
    mixed = poly(other) * gain * float(r.choice([-1.0, 1.0]))
    src = mixed if r.random() < 0.5 else h
    if src is mixed:
        case.hit("mixed-phase")
    q = np.array(src) if r.random() < 0.7 else np.array(src)[::-1].copy()
    ref = autocorr(q)
    keep = q.copy()
    got_r = np.array(case.sut(inverse_spectral_fact, q), dtype=float)
    wit = dict(n=n, zeros=[[abs(z), math.degrees(math.atan2(z.imag, z.real))] for z in zs], flipped=flip, h=h)
    case.check(np.array_equal(q, keep), "the filter was modified", **wit)
    case.hit("autocorrelation")
    case.check(
        got_r.shape == (n,) and float(np.abs(got_r - ref).max()) <= 1e-12 * n * ref[0], "not the autocorrelation of the filter", got=got_r, want=ref, **wit
    )
    rin = ref.copy()
    if r.random() < 0.2:
        rin.setflags(write=False)
    out = np.array(case.sut(spectral_fact, rin))
    judge(case, out, ref, h, max([abs(z) for z in zs], default=0.0), wit)
    if n == 1:
        case.hit("length-1")
    case.check(np.array_equal(rin, ref), "the autocorrelation was modified", **wit)
    # and back again
    back = np.array(case.sut(inverse_spectral_fact, out))
    case.check(float(np.abs(back - autocorr(out)).max()) <= 1e-11 * n * ref[0], "factor and autocorrelation are not inverse to each other", back=back, want=ref, **wit)
    case.signature("round", n, sum(flip), src is mixed, round(math.log10(scale)))
    case.show(n=n, h=h, r=ref)


def lengthy(case):
    """Long filters: a few zeros near the circle and sparse distant taps."""
    r = case.rng
    c = [k for k in case.lits["ints"] if 41 <= k <= 260]
    n = int(r.choice(c)) + int(r.integers(0, 2)) if c and r.random() < 0.2 else int(r.integers(41, 90)) if r.random() < 0.6 else int(r.integers(90, 261))
    zs = zeros(case, int(r.integers(1, 5)), float(r.choice([0.5, 0.9, 0.96])))
    h = poly(zs)
    rho = max(abs(z) for z in zs)
    while True:
        k = n - len(h) if r.random() < 0.6 else int(r.integers(1, n - len(h) + 1)) if n > len(h) else 0
        if k <= 0:
            break
        t = np.zeros(k + 1)
        t[0], t[k] = 1.0, float(r.uniform(-0.6, 0.6))  # zeros at radius |t|^(1/k)
        rho = max(rho, abs(t[k]) ** (1.0 / k))
        h = np.convolve(h, t)
        if r.random() < 0.5:
            break
    h = np.concatenate([h, np.zeros(n - len(h))]) * 10.0 ** float(r.uniform(-3, 3))
    ref = autocorr(h)
    out = np.array(case.sut(spectral_fact, ref.copy()))
    case.hit("lengthy")
    # the taps stand for zeros at a^(1/k), whose aliasing is a^(m/2k) with k < n: at most a^40
    judge(case, out, ref, h, min(rho, 0.6 ** (1.0 / n)) if rho > 0.97 else rho, dict(n=n, h=h))
    got = np.array(case.sut(inverse_spectral_fact, h.copy()))
    case.check(got.shape == (n,) and float(np.abs(got - ref).max()) <= 1e-12 * n * ref[0], "not the autocorrelation of the filter", n=n)
    case.signature("lengthy", n, len(zs))


def judge(case, out, ref, h, rho, wit):
    n = len(ref)
    case.hit("factored")
    case.check(out.shape == (n,) and np.isrealobj(out) and bool(np.all(np.isfinite(out))), "malformed factor", out=out, **wit)
    # cepstral aliasing of a zero at radius rho: about rho**(m/2), m = 100 n
    w = np.linspace(0, math.pi, 64 * n)
    R = ref[0] + sum((2 * ref[k] * np.cos(k * w) for k in range(1, n)), np.zeros(len(w)))
    if R.min() <= 1e-10 * R.max():  # the logarithm amplifies rounding without bound
        case.hit("dynamic-range")
        return
    tol = 1e-8 + 20 * n * rho ** (40 * n) + 1e-13 * n * float(R.max() / R.min())
    s = math.sqrt(ref[0])
    case.check(out[0] > 0, "the factor does not start with a positive coefficient", out=out, **wit)
    case.check(
        float(np.abs(autocorr(out) - ref).max()) <= tol * ref[0], "the factor does not have the given autocorrelation", out=out, got=autocorr(out), want=ref, **wit
    )
    if h is not None:
        case.check(float(np.abs(out - h).max()) <= tol * s * 10, "the factor is not the minimum-phase filter", out=out, want=h, **wit)


def minphase(out):
    """All zeros inside the circle, by the winding number of the response."""
    n = len(out)
    w = np.exp(-2j * math.pi * np.arange(512 * n) / (512 * n))
    v = np.polyval(np.asarray(out)[::-1], w)  # sum h[k] e^{-jwk}
    ph = np.unwrap(np.angle(v))
    end = np.unwrap(np.append(ph, np.angle(v[0])))[-1]
    return int(round((end - ph[0]) / (2 * math.pi)))


def direct(case):
    """Autocorrelations given directly: diagonally dominant, so strictly positive."""
    r = case.rng
    n = length(case)
    t = r.normal(size=n - 1) * r.choice([1.0, 0.0], n - 1, p=[0.8, 0.2])
    c = float(10.0 ** (r.uniform(-1, 2) if r.random() < 0.6 else r.uniform(-30, 30)))
    ref = np.concatenate([[2 * float(np.abs(t).sum()) * float(r.uniform(1.15, 3)) + 0.1], t]) * c
    out = np.array(case.sut(spectral_fact, ref.copy()))
    wit = dict(n=n, r=ref)
    case.hit("direct")
    # zeros stay away from the circle: R >= 0.13 R(0) and R is a trigonometric polynomial
    case.check(out.shape == (n,) and bool(np.all(np.isfinite(out))), "malformed factor", out=out, **wit)
    case.check(float(np.abs(autocorr(out) - ref).max()) <= 1e-7 * ref[0], "the factor does not have the given autocorrelation", out=out, got=autocorr(out), **wit)
    case.check(out[0] > 0 and minphase(out) == 0, "the factor is not minimum phase", out=out, winding=minphase(out), **wit)
    k = float(10.0 ** (r.uniform(-1, 1) if r.random() < 0.5 else r.uniform(-25, 25)))
    again = np.array(case.sut(spectral_fact, ref * k))
    case.check(float(np.abs(again - math.sqrt(k) * out).max()) <= 1e-7 * math.sqrt(k * ref[0]), "the factor does not scale with the autocorrelation", k=k, **wit)
    # the same numbers in other types and containers
    whole = np.rint(ref / ref[0] * 10.0 ** float(r.uniform(3, 15)))
    forms = {
        "list": lambda a: a.tolist(), "tuple": lambda a: tuple(a.tolist()), "integers": lambda a: a.astype(np.int64),
        "integer list": lambda a: [int(v) for v in a], "strided": lambda a: np.repeat(a, 2)[::2], "reversed": lambda a: a[::-1].copy()[::-1],
        "extended": lambda a: a.astype(np.longdouble), "unsigned": lambda a: a.astype(np.uint64) if a.min() >= 0 else a,
    }
    form = str(r.choice(list(forms)))
    base = np.array(case.sut(spectral_fact, whole.copy()), dtype=float)
    other = np.array(case.sut(spectral_fact, forms[form](whole)), dtype=float)
    case.hit("form")
    case.check(other.shape == base.shape and float(np.abs(other - base).max()) <= 1e-9 * math.sqrt(whole[0]),
               "the factor depends on the type of the numbers", form=form, got=other, want=base, r_whole=whole)
    case.check(float(np.abs(autocorr(base) - whole).max()) <= 1e-7 * whole[0] + 1, "the factor does not have the given autocorrelation", got=autocorr(base), r_whole=whole)
    back = np.array(case.sut(inverse_spectral_fact, forms[form](whole)), dtype=float)
    case.check(back.shape == whole.shape and float(np.abs(back - autocorr(whole)).max()) <= 1e-9 * float(whole @ whole) or float(whole @ whole) > 1e15 and "int" in form or form == "unsigned",
               "the autocorrelation depends on the type of the numbers", form=form, got=back, want=autocorr(whole))
    case.signature("direct", n, round(math.log10(c)), int((t == 0).sum()))


def shapes(case):
    """The inverse operation on filters of special shape."""
    r = case.rng
    n = int(r.integers(1, 60))
    kind = str(r.choice(["constant", "impulse", "ramp", "alternating", "symmetric", "antisymmetric", "gaps", "zeros", "whole", "geometric"]))
    c = float(r.choice([1.0, -1.0, 0.1, 3.0])) * 10.0 ** float(r.choice([0.0, r.uniform(-20, 20)]))
    h = {
        "constant": lambda: np.ones(n), "impulse": lambda: np.eye(n)[int(r.integers(n))], "ramp": lambda: np.arange(n) - float(r.choice([0, n / 2])),
        "alternating": lambda: (-1.0) ** np.arange(n), "symmetric": lambda: (lambda q: q + q[::-1])(r.normal(size=n)),
        "antisymmetric": lambda: (lambda q: q - q[::-1])(r.normal(size=n)), "gaps": lambda: r.normal(size=n) * (np.arange(n) % int(r.integers(2, 5)) == 0),
        "zeros": lambda: np.zeros(n), "whole": lambda: r.integers(-3, 4, n).astype(float), "geometric": lambda: float(r.choice([0.5, 0.9, -0.7, 1.0, 2.0])) ** np.arange(n),
    }[kind]() * c
    got = np.array(case.sut(inverse_spectral_fact, h.copy()), dtype=float)
    want = autocorr(h)
    case.hit("shape")
    case.check(got.shape == (n,) and float(np.abs(got - want).max()) <= 1e-12 * n * float(h @ h), "not the autocorrelation of the filter", kind=kind, h=h, got=got, want=want)
    if n > 1 and float(h @ h) > 0 and kind in ("impulse", "geometric") and (kind == "impulse" or abs(h[1]) < 0.95 * abs(h[0])):
        out = np.array(case.sut(spectral_fact, want), dtype=float)
        ref = np.abs(c) * np.eye(n)[0] if kind == "impulse" else h * np.sign(h[0])
        # the longer the filter the closer a truncated geometric sequence comes to the circle
        if kind == "impulse" or n <= 12:
            case.check(float(np.abs(out - ref).max()) <= 1e-5 * abs(c), "not the minimum-phase factor", kind=kind, h=h, got=out, want=ref)
    case.signature("shape", kind, n)


def invalid(case):
    r = case.rng
    u = int(r.integers(4))
    if u == 0:
        what, bad, exc = "empty", np.array([]), ValueError
    elif u == 1:
        n = int(r.integers(1, 12))
        bad = r.normal(size=n)
        bad[0] = 2 * np.abs(bad).sum() + 1
        bad[int(r.integers(n))] = float(r.choice([np.nan, np.inf, -np.inf]))
        what, exc = "non-finite", ValueError
    elif u == 2:
        n = length(case)
        while True:
            bad = r.normal(size=n) * float(10.0 ** r.uniform(-0.5, 2))
            w = np.linspace(0, math.pi, 400 * n)
            R = bad[0] + sum(2 * bad[k] * np.cos(k * w) for k in range(1, n))
            # negative on a whole grid cell, so every fine enough sampling sees it
            low = R < -1e-2
            if low.any() and (n == 1 or np.convolve(low, np.ones(12), "valid").max() >= 12):
                break
            bad[0] -= abs(bad[0]) + 0.05
        what, exc = "negative", RuntimeError
    else:  # zeros on the circle: degenerate but legitimate; accuracy is limited
        n = int(r.integers(2, 8))
        zs = zeros(case, n - 2, 0.8) + [complex(r.choice([-1, 1]))]
        h = poly(zs) * float(10.0 ** r.uniform(0, 1))
        ref = autocorr(h)
        out = np.array(case.sut(spectral_fact, ref))
        case.hit("marginal")
        case.check(out.shape == (n,) and bool(np.all(np.isfinite(out))), "malformed factor of a marginal autocorrelation", r=ref, out=out)
        case.check(float(np.abs(autocorr(out) - ref).max()) <= 0.2 * ref[0], "factor of a marginal autocorrelation is far off", r=ref, out=out)
        case.signature("marginal", n)
        return
    case.hit(what)
    try:
        got = case.sut(spectral_fact, bad, allow=(exc,))
        case.check(False, f"{what} input was accepted", r=bad, got=got)
    except exc:
        case.check(True, "")
    case.signature(what, len(bad))


FAMILIES = {
    "roundtrip": (roundtrip, 6000, 60000),
    "lengthy": (lengthy, 240, 3000),
    "direct": (direct, 3000, 30000),
    "invalid": (invalid, 1200, 8000),
    "shapes": (shapes, 2000, 10000),
}
