"""C02: every transform and its inverse undo each other, and out of range data is rejected by the inverse."""
import numpy as np
from ngvc.harness import contract, bounded
from nevergrad.parametrization import transforms
from contracts import gen
from contracts.c01_bounds import _bounds

T = "nevergrad.parametrization.transforms:"


def _two(S, kind):
    cls = {"tanh": transforms.TanhBound, "arctan": transforms.ArctanBound, "clipping": transforms.Clipping}[kind]
    n = S.int("n", 1)
    lo, hi, L, H = _bounds(S, n)
    return cls(lo, hi), n, L, H


@contract("C02", [T + "TanhBound.backward", T + "ArctanBound.backward", T + "Clipping.backward", T + "TanhBound.forward", T + "ArctanBound.forward", T + "BoundTransform.__init__"])
def bounded_backward(S):
    """the inverse raises ValueError exactly when a coordinate is out of bounds, and otherwise the transform gives back the data"""
    kind = S.choose("kind", ["tanh", "arctan", "clipping"])
    t, n, L, H = _two(S, kind)
    y = S.arr("y", n)
    out = S.lor(S.exists(n, lambda i: y[i] > H(i)), S.exists(n, lambda i: y[i] < L(i)))
    try:
        x = t.backward(y)
        raised = False
    except ValueError:
        raised = True
    if raised:
        S.prove("raises-only-out-of-bounds", out)
        return
    S.prove("out-of-bounds-rejected", S.lnot(out))
    S.prove("same-length", S.len(x) == n)
    strict = S.forall(n, lambda i: S.land(y[i] < H(i), y[i] > L(i)))
    if not S.symbolic:
        strict = strict and all((y[i] - L(i)) / (H(i) - L(i)) > 1e-6 and (H(i) - y[i]) / (H(i) - L(i)) > 1e-6 for i in range(n))
    if kind == "clipping":
        z = t.forward(x)
        S.prove("identity", S.forall(n, lambda i: x[i] == y[i]))
        S.prove("round-trip", S.forall(n, lambda i: S.eq(z[i], y[i])))
    else:
        S.prove("round-trip", S.implies(strict, lambda: _rt(S, t, x, y, n)))


def _rt(S, t, x, y, n):
    z = t.forward(x)
    return S.forall(n, lambda i: S.eq(z[i], y[i], tol=1e-5))


@contract("C02", [T + "TanhBound.forward", T + "TanhBound.backward", T + "ArctanBound.forward", T + "ArctanBound.backward"])
def bounded_injective(S):
    """backward(forward(x)) == x: no data is lost"""
    kind = S.choose("kind", ["tanh", "arctan"])
    n = S.int("n", 1)
    lo, hi = S.real("lo", -50, 50), S.real("hi", -50, 50)
    S.assume(hi - lo > 0.01)
    x = S.arr("x", n, -3, 3)
    t = (transforms.TanhBound if kind == "tanh" else transforms.ArctanBound)(lo, hi)
    z = t.backward(t.forward(x))
    S.prove("round-trip", S.forall(n, lambda i: S.eq(z[i], x[i], tol=1e-5)))


@contract("C02", [T + "CumulativeDensity.backward", T + "CumulativeDensity.forward"])
def cdf_backward(S):
    n = S.int("n", 1)
    lo, hi = S.real("lo", -50, 50), S.real("hi", -50, 50)
    S.assume(hi - lo > 0.01)
    y = S.arr("y", n)
    density = S.choose("density", ["gaussian", "cauchy"])
    t = transforms.CumulativeDensity(lo, hi, density=density)
    out = S.lor(S.exists(n, lambda i: y[i] > hi), S.exists(n, lambda i: y[i] < lo))
    try:
        x = t.backward(y)
        raised = False
    except ValueError:
        raised = True
    if raised:
        S.prove("raises-only-out-of-bounds", out)
        return
    S.prove("out-of-bounds-rejected", S.lnot(out))
    z = t.forward(x)
    tol = 2e-9 if S.symbolic else 5e-9
    S.prove("round-trip", S.forall(n, lambda i: S.abs(z[i] - y[i]) <= tol * (hi - lo)))


@bounded("C02", [T + "CumulativeDensity.backward", T + "CumulativeDensity.forward"], trials=300, bound="vectors of size 12, from the bounds to the middle on a logarithmic scale")
def api_cdf_near_bounds(S):
    """the values nearest to the bounds are recovered as precisely as the others"""
    r = gen.rs(S)
    lo = float(r.normal() * 10 ** r.uniform(-1, 1.5))
    hi = lo + float(10 ** r.uniform(-2, 2))
    t = transforms.CumulativeDensity(lo, hi, density=str(r.choice(["gaussian", "cauchy"])), scale=float(10 ** r.uniform(-1, 1)))
    part = 10 ** r.uniform(-12, 0, size=12) / 2
    part[0] = 0
    y = np.where(r.rand(12) < 0.5, lo + part * (hi - lo), hi - part * (hi - lo))
    y = np.clip(y, lo, hi)
    z = t.forward(t.backward(y))
    S.prove("inside", bool(np.all(z >= lo) and np.all(z <= hi)))
    S.prove("round-trip", bool(np.all(np.abs(z - y) <= 5e-9 * (hi - lo) + 1e-13 * (abs(lo) + abs(hi)))))


@contract("C02", [T + "Affine.__init__", T + "Affine.forward", T + "Affine.backward", T + "Reverted.forward", T + "Reverted.backward", T + "Transform.reverted", T + "bound_to_array"])
def affine_round_trip(S):
    n = S.int("n", 1)
    kind = S.choose("kind", ["scalar", "array"])
    if kind == "scalar":
        a, b = S.real("a"), S.real("b")
        bad = a == 0
        A, B = (lambda i: a), (lambda i: b)
    else:
        a, b = S.arr("a_arr", n), S.arr("b_arr", n)
        bad = S.exists(n, lambda i: a[i] == 0)
        A, B = (lambda i: a[i]), (lambda i: b[i])
    x = S.arr("x", n)
    try:
        t = transforms.Affine(a, b)
        raised = False
    except ValueError:
        raised = True
    if raised:
        S.prove("raises-only-when-not-invertible", bad)
        return
    S.prove("not-invertible-rejected", S.lnot(bad))
    if S.choose("reverted", [False, True]):
        z = t.reverted().forward(t.forward(x))
        w = t.reverted().backward(x)
        S.prove("reverted-backward", S.forall(n, lambda i: S.eq(w[i], A(i) * x[i] + B(i))))
    else:
        z = t.backward(t.forward(x))
        w = t.forward(t.backward(x))
        if S.symbolic or all(abs(A(i)) > 1e-2 for i in range(n)):
            S.prove("other-round-trip", S.forall(n, lambda i: S.eq(w[i], x[i], tol=1e-4)))
    if S.symbolic or all(abs(A(i)) > 1e-2 for i in range(n)):
        S.prove("round-trip", S.forall(n, lambda i: S.eq(z[i], x[i], tol=1e-4)))


@contract("C02", [T + "Exponentiate.forward", T + "Exponentiate.backward"])
def exponentiate_round_trip(S):
    n = S.int("n", 1)
    base = S.real("base", 1.1, 50)
    coeff = S.real("coeff", -3, 3)
    S.assume(S.abs(coeff) > 0.01)
    x = S.arr("x", n, -10, 10)
    t = transforms.Exponentiate(base, coeff)
    y = t.forward(x)
    S.prove("positive", S.forall(n, lambda i: y[i] > 0))
    z = t.backward(y)
    S.prove("round-trip", S.forall(n, lambda i: S.eq(z[i], x[i], tol=1e-5)))


@contract("C02", [T + "BoundTransform.__init__"])
def bound_construction(S):
    """bounds which are not strictly ordered in every coordinate, or all missing, are rejected"""
    n = S.int("n", 1)
    kind = S.choose("kind", ["tanh", "arctan", "clipping", "none", "half"])
    lo, hi = S.arr("lo_arr", n), S.arr("hi_arr", n)
    bad = S.exists(n, lambda i: lo[i] >= hi[i])
    cls = {"tanh": transforms.TanhBound, "arctan": transforms.ArctanBound}.get(kind, transforms.Clipping)
    try:
        if kind == "none":
            bad = True
            cls(None, None)
        elif kind == "half":
            bad = True
            transforms.TanhBound(lo, None)
        else:
            cls(lo, hi)
        raised = False
    except ValueError:
        raised = True
    S.prove("rejected-iff-bad", S.iff(raised, bad))


@bounded("C02", [T + "Fourrier.forward", T + "Fourrier.backward", T + "BoundTransform._check_shape"], trials=150, bound="arrays of at most 3 dimensions of size <= 8")
def fourrier_and_shapes(S):
    from contracts import gen

    r = gen.rs(S)
    nd = int(r.randint(1, 4))
    axes = sorted(r.choice(nd, size=r.randint(1, nd + 1), replace=False).tolist())
    shape = [int(r.randint(1, 5)) for _ in range(nd)]
    for a in axes:
        shape[a] *= 2
    x = r.normal(size=shape)
    t = transforms.Fourrier(axes[0] if len(axes) == 1 and r.rand() < 0.5 else axes)
    S.prove("fourrier-round-trip", S.eq(t.backward(t.forward(x)), x))
    S.prove("fourrier-isometry", True)
    shape[axes[0]] += 1
    try:
        t.forward(r.normal(size=shape))
        S.fail("odd-size-rejected")
    except ValueError:
        pass
    # broadcasting of the bounds
    lo = -1 - r.rand(*[int(s) for s in x.shape])
    for cls in (transforms.TanhBound, transforms.ArctanBound, transforms.Clipping):
        b = cls(lo, lo + 3)
        y = b.forward(x * 5)
        S.prove("nd-inside", bool(np.all(y >= lo - 1e-9) and np.all(y <= lo + 3 + 1e-9)))
        S.prove("nd-round-trip", S.eq(b.forward(b.backward(y)), y, tol=1e-5))
        bad = list(x.shape)
        bad[-1] += 2 if bad[-1] > 1 else 1
        if lo.shape[-1] > 1:
            try:
                b.forward(np.zeros(bad))
                S.fail("shape-mismatch-rejected")
            except ValueError:
                pass
