"""C06: equivalent statements of the same problem give the same ellipsoid."""

import copy
import math
import pickle

import numpy as np

from vlib import ellipsoid as E
from vlib.ellipsoid import CutStatus

PROPERTY = "C06"
ANCHORS = ["ell.py", "ell_stable.py", "ell_calc.py"]
RULE = (
    "two spaces driven through the same history of cuts stated in two equivalent ways "
    "(metamorphic pair); distinct = (relation, space, dim, kind, status, offset cell)"
)


def build(case, cls, n, val, xc, **flags):
    s = case.sut(E.SPACES[cls], val, xc)
    if flags.get("no_defer"):
        s.no_defer_trick = True
    if flags.get("no_parallel"):
        s.helper.use_parallel_cut = False
    return s


# Each relation: (case, n, cls) -> dict(a=space, b=space, cut=transform of the cut,
#   x=map of the centre a->b, J=its linear part, single/pair restrictions, kinds)
def rel_no_defer(case, n, cls):
    v, x = val(case, n), ctr(case, n)
    return dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy(), no_defer=True))


def rel_defer_switch(case, n, cls):
    """The bookkeeping option may be switched at any time."""
    v, x = val(case, n), ctr(case, n)
    b = build(case, cls, n, copy.deepcopy(v), x.copy())

    def before(step):
        b.no_defer_trick = bool(case.rng.random() < 0.5)

    return dict(a=build(case, cls, n, v, x.copy()), b=b, before=before)


def rel_scale_cut(case, n, cls):
    v, x = val(case, n), ctr(case, n)
    r = case.rng

    def cut(kind, g, beta):
        s = float(r.choice([2.0, 0.5, 3.0, 10.0 ** r.uniform(-6, 6), 1e-12, 1e12]))
        if r.random() < 0.35:  # any unit in which the squared widths are representable
            s = 10.0 ** float(r.uniform(-60, 60)) / math.sqrt(E.width2(case, box["b"], g))
        return kind, np.asarray(g, float) * s, scale_beta(beta, s)

    box = dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy()), cut=cut)
    return box


def rel_parallel_off(case, n, cls):
    """With parallel cuts off, a pair acts as its first member alone."""
    v, x = val(case, n), ctr(case, n)

    def cut(kind, g, beta):
        return kind, g, float(beta if np.isscalar(beta) else beta[0])

    return dict(
        a=build(case, cls, n, v, x.copy(), no_parallel=True),
        b=build(case, cls, n, copy.deepcopy(v), x.copy(), no_parallel=bool(case.rng.random() < 0.5)),
        cut=cut,
        single_semantics=True,
    )


def rel_parallel_switch(case, n, cls):
    """Parallel cuts may be switched off and on at any time; b gets by hand what a does."""
    v, x = val(case, n), ctr(case, n)
    a = build(case, cls, n, v, x.copy())
    on = [True]

    def before(step):
        if step and case.rng.random() < 0.5:
            on[0] = not on[0]
            a.helper.use_parallel_cut = on[0]

    def cut(kind, g, beta):
        return kind, g, beta if on[0] or np.isscalar(beta) else float(beta[0])

    return dict(a=a, b=build(case, cls, n, copy.deepcopy(v), x.copy()), cut=cut, before=before,
                single_semantics=lambda: not on[0])


def rel_beta_form(case, n, cls):
    v, x = val(case, n), ctr(case, n)
    r = case.rng

    def cut(kind, g, beta):
        if np.isscalar(beta):
            b = float(beta)
            forms = [b, [b], (b,), np.array([b]), np.float64(b)]
            if math.isfinite(b) and b == int(b):
                forms += [int(b)] if abs(b) > 1e9 else [int(b), np.int64(b), np.int32(b)]
            if abs(b) < 1e30 and float(np.float32(b)) == b:
                forms += [np.float32(b), np.array([b], dtype=np.float32)]
            return kind, g, forms[int(r.integers(len(forms)))]
        vals = [float(t) for t in beta]
        if len(vals) == 1:
            return kind, g, vals[0]
        forms = [list(vals), tuple(vals), np.array(vals), tuple(np.float64(t) for t in vals)]
        if all(abs(t) < 1e30 and float(np.float32(t)) == t for t in vals):
            forms += [np.array(vals, dtype=np.float32), [np.float32(t) for t in vals]]
        return kind, g, forms[int(r.integers(len(forms)))]

    return dict(
        a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy()), cut=cut,
        f32=bool(r.random() < 0.5),
    )


def rel_scalar_diag(case, n, cls):
    r = case.rng
    v = float(10.0 ** r.uniform(-4, 4)) if r.random() < 0.6 else int(r.integers(1, 40))
    x = ctr(case, n)
    full = [v] * n
    full = [full, tuple(full), np.array(full), np.array(full, dtype=float)][int(r.integers(4))]
    if isinstance(v, int):
        v = [v, np.int64(v), np.int32(v), np.float32(v)][int(r.integers(4))]
    return dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, full, x.copy()))


def rel_number_types(case, n, cls):
    """Integer data mean the same as the equal floating-point data."""
    r = case.rng
    v = r.integers(1, 30, n)
    x = r.integers(-9, 10, n)

    def cut(kind, g, beta):
        return kind, np.asarray(g, dtype=float).copy(), beta

    return dict(
        a=build(case, cls, n, v if r.random() < 0.5 else v.tolist(), x.copy() if r.random() < 0.5 else x.astype(float)),
        b=build(case, cls, n, v.astype(float), x.astype(float)),
        cut=cut,
        int_grads=True,
    )


def rel_permute(case, n, cls):
    v, x = np.asarray(val(case, n), dtype=float) * np.ones(n), ctr(case, n)
    p = case.rng.permutation(n)
    J = np.eye(n)[p]

    def cut(kind, g, beta):
        return kind, np.asarray(g, float)[p], beta

    return dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, v[p], x[p]), cut=cut, J=J)


def rel_rescale(case, n, cls):
    """Change of units of the variables."""
    v, x = np.asarray(val(case, n), dtype=float) * np.ones(n), ctr(case, n)
    d = 10.0 ** case.rng.uniform(-3, 3, n) * case.rng.choice([-1.0, 1.0], n)
    J = np.diag(d)

    def cut(kind, g, beta):
        return kind, np.asarray(g, float) / d, beta

    return dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, v * d * d, x * d), cut=cut, J=J)


def rel_translate(case, n, cls):
    v, x = val(case, n), ctr(case, n)
    t = case.rng.normal(size=n) * 10.0 ** case.rng.uniform(-2, 1)
    return dict(
        a=build(case, cls, n, v, x.copy()),
        b=build(case, cls, n, copy.deepcopy(v), x + t),
        shift=t,
    )


def rel_far_plane(case, n, cls):
    """A second plane beyond the set changes nothing."""
    v, x = val(case, n), ctr(case, n)
    r = case.rng

    def cut(kind, g, beta):
        b0 = float(beta if np.isscalar(beta) else beta[0])
        t = math.sqrt(E.width2(case, box["b"], g))
        u = r.random()
        far = t * (1.0 + 10.0 ** float(r.uniform(-6, 4)))
        if u < 0.15:
            far = math.inf
        elif u < 0.25:
            far = t * 10.0 ** float(r.uniform(4, 100))
        if far < b0:
            far = b0 * 1.5
        return kind, g, [b0, far]

    box = dict(
        a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy()),
        cut=cut, single_only=True,
    )
    return box


def rel_central(case, n, cls):
    """A cut through the center is the offset-zero cut, however it is applied."""
    v, x = val(case, n), ctr(case, n)
    r = case.rng

    def cut(kind, g, beta):
        if np.isscalar(beta):
            return str(r.choice(["bias", "q"])), g, 0.0
        b1 = float(beta[1])
        return str(r.choice(["bias", "q"])), g, (0.0, b1)

    return dict(
        a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy()),
        cut=cut, kinds=("central",), scalar_or_pair=True,
    )


def rel_q_deep(case, n, cls):
    """For cuts that are not shallow the two offset-cut methods agree."""
    v, x = val(case, n), ctr(case, n)

    def cut(kind, g, beta):
        return {"bias": "q", "q": "bias"}[kind], g, beta

    return dict(
        a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy()),
        cut=cut, kinds=("bias", "q"), deep_only=True,
    )


def rel_copy(case, n, cls):
    """A copy taken mid-history continues exactly like the original."""
    v, x = val(case, n), ctr(case, n)
    a = build(case, cls, n, v, x.copy())
    for _ in range(int(case.rng.integers(0, 6))):
        E.apply_cut(case, a, "central", (case.rng.normal(size=n), 0.0))
    b = copy.deepcopy(a) if case.rng.random() < 0.7 else pickle.loads(pickle.dumps(a))
    return dict(a=a, b=b)




def val(case, n):
    r = case.rng
    s = 10.0 ** (r.choice([0, 0, 2, -2, 5, -5]) if r.random() < 0.9 else r.uniform(-30, 30))
    if r.random() < 0.5:
        return float(s * r.uniform(0.5, 2))
    return s * 10.0 ** r.uniform(-1, 1, n)


def rel_units(case, n, cls):
    """A change of the unit of length: the same picture at another size."""
    v, x = val(case, n), ctr(case, n)
    k = 10.0 ** float(case.rng.uniform(-35, 35))

    def cut(kind, g, beta):
        return kind, np.asarray(g, float), scale_beta(beta, k)

    return dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, np.asarray(v) * k * k if np.ndim(v) else float(v) * k * k, x * k),
                cut=cut, J=np.eye(n) * k, own_units=True)


def rel_aged(case, n, cls):
    """Both members of a pair with a long common past, stated with and without deferral."""
    v = val(case, n)
    a = build(case, cls, n, v, np.zeros(n))
    b = build(case, cls, n, copy.deepcopy(v), np.zeros(n), no_defer=True)
    st = case.rng.bit_generator.state
    E.age(case, a, n, 900 if n <= 6 else 200)
    case.rng.bit_generator.state = st
    E.age(case, b, n, 900 if n <= 6 else 200)
    case.sut(b.set_xc, np.array(a.xc(), dtype=float))
    return dict(a=a, b=b, own_units=True)


def rel_buffers(case, n, cls):
    """Fresh arrays for every cut against the same arrays rewritten."""
    v, x = val(case, n), ctr(case, n)
    buf = E.Buffers(case, n)

    def cut(kind, g, beta):
        return (kind,) + tuple(buf.state(np.array(g, dtype=float), copy.deepcopy(beta)))

    return dict(a=build(case, cls, n, v, x.copy()), b=build(case, cls, n, copy.deepcopy(v), x.copy()), cut=cut)


RELATIONS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("rel_")}
REQUIRED = {f"rel:{k}": 60 for k in RELATIONS}


def ctr(case, n):
    return case.rng.normal(size=n) * float(case.rng.choice([0.0, 1.0, 10.0]))


def scale_beta(beta, s):
    return float(beta) * s if np.isscalar(beta) else [float(t) * s for t in beta]


def metamorphic(case):
    r = case.rng
    names = sorted(RELATIONS)
    name = names[case.index % len(names)]
    cls = str(r.choice(["Ell", "EllStable"]))
    n = min(E.pick_dim(case), 12)
    rel = RELATIONS[name](case, n, cls)
    a, b = rel["a"], rel["b"]
    J = rel.get("J", np.eye(n))
    shift = rel.get("shift", np.zeros(n))
    tr = rel.get("cut", lambda k, g, be: (k, copy.deepcopy(g), copy.deepcopy(be)))
    kinds = rel.get("kinds", E.KINDS)
    single = rel.get("single_semantics", False)
    worst = 1.0
    oa = E.observe(case, a)
    prev = None
    steps = int(r.integers(2, 15))
    for step in range(steps):
        if "before" in rel:
            rel["before"](step)
        no_par = single() if callable(single) else single
        kind = str(r.choice(kinds))
        for _ in range(80):
            g = E.rand_grad(case, n, prev, oa.sd)
            if rel.get("own_units"):
                g = E.in_units(g, oa.sd)
            if rel.get("int_grads"):
                g = r.integers(-4, 5, n)
                if not g.any():
                    continue
            a0, a1 = E.rand_alphas(case, n, kind)
            if rel.get("single_only"):
                a1 = None
            tau = math.sqrt(E.width2(case, a, g))
            beta, form = E.beta_form(case, *(b if b is None or not rel.get("f32") or abs(b) > 1e30 else float(np.float32(b)) for b in (a0 * tau, None if a1 is None else a1 * tau)), exact=True)
            if rel.get("scalar_or_pair") and a1 is None:
                beta, form = float(a0 * tau), "float"
            lo, hi = E.retained(kind, beta, tau, not no_par)
            pair = lo > -math.inf
            if rel.get("deep_only") and hi > 0.0:
                continue
            if E.degenerate(lo, hi) or not E.asserted_domain(kind, a0, a1, lo, hi, pair):
                continue
            if len(E.expected_status(n, kind, lo, hi, pair, 1e-6 * worst)) != 1:
                continue
            if abs(lo + 1.0) < 1e-6 * worst:
                continue
            break
        else:
            return
        kb, gb, bb = tr(kind, g, beta)
        if name == "far_plane" and hi > 0.0 and kb == "bias":
            continue
        sa = E.apply_cut(case, a, kind, (g, beta))
        sb = E.apply_cut(case, b, kb, (gb, bb))
        wit = dict(
            relation=name, space=cls, n=n, step=step, stated=[kind, np.asarray(g, float), beta],
            restated=[kb, np.asarray(gb, float), bb], offset_over_tau=[a0, a1],
        )
        case.check(sa == sb, "equivalent cuts report different statuses", a=sa.name, b=sb.name, **wit)
        oa, ob = E.observe(case, a), E.observe(case, b)
        if sa == CutStatus.Success:
            A2 = E.minvol(n, max(lo, -1.0), min(hi, 1.0))[1] if hi <= 1 else 1.0
            worst = max(worst, min(1.0 / A2, 1e6))
        tol = worst * (1e-9 + 1e-14 * (step + 1) * max(oa.cond, ob.cond))
        if tol > 1e-4 or oa.cond > 1e9:
            break
        E.compare_obs(case, ob, J @ oa.xc + shift, J @ oa.P @ J.T, tol, "equivalent statements differ", **wit)
        case.hit("rel:" + name)
        case.signature(name, cls, n, kind, sa.name, round(max(min(lo, 3), -3), 1), round(max(min(hi, 3), -3), 1))
        prev = np.asarray(g, dtype=float)
    case.show(relation=name, space=cls, n=n, steps=step)


def boundary(case):
    """Exact decision boundaries under the bookkeeping options and offset forms."""
    r = case.rng
    cls = str(r.choice(["Ell", "EllStable"]))
    n = int(r.integers(2, 10))
    v = 4.0 ** int(r.integers(-3, 4))
    rel = str(r.choice(["no_defer", "diag", "form", "pow2"]))
    a = build(case, cls, n, v, np.zeros(n))
    b = build(case, cls, n, [v] * n if rel == "diag" else v, np.zeros(n), no_defer=rel == "no_defer")
    kind = str(r.choice(E.KINDS))
    for _ in range(100):
        g = E.lattice_grad(case, n)
        a0, a1 = E.lattice_alphas(case, n, kind)
        tau = math.sqrt(E.width2(case, a, g))
        b0, b1 = a0 * tau, None if a1 is None else a1 * tau
        beta = b0 if b1 is None else (b0, b1)
        lo, hi = E.retained(kind, beta, tau)
        pair = lo > -math.inf
        if not E.degenerate(lo, hi) and E.asserted_domain(kind, a0, a1, lo, hi, pair):
            break
    else:
        return
    g2, beta2 = g.copy(), beta
    if rel == "form":
        beta2, _ = E.beta_form(case, b0, b1, exact=True)
    if rel == "pow2":
        g2, beta2 = 4.0 * g, scale_beta(beta, 4.0)
    wit = dict(n=n, space=cls, relation=rel, kind=kind, gradient=g, offset=beta, offset_over_tau=[a0, a1])
    sa = E.apply_cut(case, a, kind, (g, beta))
    sb = E.apply_cut(case, b, kind, (g2, beta2))
    if sa != sb:
        ok = len(E.expected_status(n, kind, lo, hi, pair)) > 1
        case.check(ok, "equivalent cuts report different statuses", a=sa.name, b=sb.name, **wit)
    for k in range(2):
        oa, ob = E.observe(case, a), E.observe(case, b)
        E.compare_obs(case, ob, oa.xc, oa.P, 1e-8, "equivalent statements differ", **wit)
        g = r.normal(size=n)
        E.apply_cut(case, a, "central", (g, 0.0))
        E.apply_cut(case, b, "central", (g.copy(), 0.0))
    case.hit("boundary")
    case.signature("boundary", rel, cls, n, kind, sa.name, lo, hi)


FAMILIES = {
    "boundary": (boundary, 1200, 6000),
    "metamorphic": (metamorphic, 2800, 22000),
    "unusable": (E.unusable, 100, 400),
    "flat": (E.flat, 150, 1500),
}
