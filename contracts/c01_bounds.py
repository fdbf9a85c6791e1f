"""C01: whatever the raw internal data, a bounded variable only ever takes values inside its bounds.
C02: out of range data is rejected by the inverse, and the inverse undoes the transform."""
import numpy as np
from ngvc.harness import contract, bounded
from nevergrad.parametrization import transforms, utils as putils

T = "nevergrad.parametrization.transforms:"


def _bounds(S, n, which=(True, True)):
    """scalar or per-coordinate bounds (lo < hi); returns (lo, hi, lo(i), hi(i))"""
    kind = S.choose("bound_kind", ["scalar", "array"])
    if kind == "scalar":
        lo, hi = S.real("lo"), S.real("hi")
        S.assume(lo < hi)
        return lo, hi, (lambda i: lo), (lambda i: hi)
    lo, hi = S.arr("lo_arr", n), S.arr("hi_arr", n)
    S.assume(S.forall(n, lambda i: lo[i] < hi[i]))
    return lo, hi, (lambda i: lo[i]), (lambda i: hi[i])


def _inside(S, y, n, lo, hi):
    return S.forall(n, lambda i: S.land(S.le(lo(i), y[i]), S.le(y[i], hi(i))))


@contract("C01", [T + "TanhBound.__init__", T + "TanhBound.forward", T + "BoundTransform.__init__", T + "BoundTransform._check_shape"], also=("C02",))
def tanh_forward(S):
    n = S.int("n", 1)
    lo, hi, L, H = _bounds(S, n)
    x = S.arr("x", n)
    t = transforms.TanhBound(lo, hi)
    y = t.forward(x)
    S.prove("same-length", S.len(y) == n)
    S.prove("inside-bounds", _inside(S, y, n, L, H))


@contract("C01", [T + "ArctanBound.__init__", T + "ArctanBound.forward"])
def arctan_forward(S):
    n = S.int("n", 1)
    lo, hi, L, H = _bounds(S, n)
    x = S.arr("x", n)
    t = transforms.ArctanBound(lo, hi)
    y = t.forward(x)
    S.prove("same-length", S.len(y) == n)
    S.prove("inside-bounds", _inside(S, y, n, L, H))


@contract("C01", [T + "CumulativeDensity.__init__", T + "CumulativeDensity.forward"])
def cdf_forward(S):
    n = S.int("n", 1)
    lo, hi = S.real("lo"), S.real("hi")
    S.assume(lo < hi)
    x = S.arr("x", n)
    scale = S.real("scale", 1e-3)
    density = S.choose("density", ["gaussian", "cauchy"])
    t = transforms.CumulativeDensity(lo, hi, scale=scale, density=density)
    y = t.forward(x)
    S.prove("inside-bounds", _inside(S, y, n, lambda i: lo, lambda i: hi))


@contract("C01", [T + "Clipping.__init__", T + "Clipping.forward", "nevergrad.parametrization.utils:BoundChecker.__call__"])
def clipping_forward(S):
    n = S.int("n", 1)
    side = S.choose("side", ["both", "lower", "upper"])
    lo, hi, L, H = _bounds(S, n)
    x = S.arr("x", n)
    bounce = S.choose("bounce", [False, True])
    t = transforms.Clipping(lo if side != "upper" else None, hi if side != "lower" else None, bounce=bounce)
    y = t.forward(x)
    S.prove("same-length", S.len(y) == n)
    if side != "upper":
        S.prove("above-lower", S.forall(n, lambda i: L(i) <= y[i]))
    if side != "lower":
        S.prove("below-upper", S.forall(n, lambda i: y[i] <= H(i)))
    inside = S.forall(n, lambda i: S.land(S.lor(side == "upper", L(i) <= x[i]), S.lor(side == "lower", x[i] <= H(i))))
    S.prove("identity-inside", S.implies(inside, lambda: S.forall(n, lambda i: y[i] == x[i])))
    if not bounce:
        # pointwise: a coordinate already inside is never moved
        S.prove("coordinate-kept", S.forall(n, lambda i: S.implies(
            S.land(S.lor(side == "upper", L(i) <= x[i]), S.lor(side == "lower", x[i] <= H(i))), y[i] == x[i])))


# ------------------------------------------------------------------------------------------------ layers
from nevergrad.parametrization import _datalayers, _layering, parameter as p  # noqa

DL = "nevergrad.parametrization._datalayers:"
LY = "nevergrad.parametrization._layering:"
METHODS = ["bouncing", "clipping", "arctan", "tanh", "gaussian"]


class _Deep(_layering.Layered):
    """root layer holding arbitrary data: the contract of any deeper layer is only that it returns an array of the shape"""

    _LAYER_LEVEL = _layering.Level.ROOT

    def __init__(self, x):
        super().__init__()
        self._x = x

    def _layered_get_value(self):
        return self._x

    def _layered_set_value(self, value):
        self._x = value

    bounds = (None, None)
    random_state = None


@contract("C01", [DL + "Bound.__init__", DL + "Bound._layered_get_value", DL + "BoundLayer.__init__", LY + "Layered._call_deeper", LY + "Layered.add_layer"])
def bound_layer_read(S):
    n = S.int("n", 1)
    method = S.choose("method", METHODS)
    lo, hi = S.real("lo"), S.real("hi")
    S.assume(lo < hi)
    x = S.arr("x", n)
    root = _Deep(x)
    lay = _datalayers.Bound(lower=lo, upper=hi, method=method)
    root.add_layer(lay)
    y = lay._layered_get_value()
    S.prove("inside-bounds", _inside(S, y, n, lambda i: lo, lambda i: hi))
    y2 = lay._layered_get_value()
    S.prove("stable-read", S.forall(n, lambda i: S.eq(y[i], y2[i])))
    if method in ("bouncing", "clipping"):
        # the data kept below is brought back inside as well
        S.prove("data-inside", _inside(S, root._x, n, lambda i: lo, lambda i: hi))


@contract("C01", [LY + "Int._layered_get_value", LY + "_to_int"])
def int_layer_read(S):
    """integer casting: nearest integer, brought back inside the bounds when an integer fits there"""
    n = S.int("n", 1)
    side = S.choose("side", ["both", "lower", "upper", "none"])
    lo, hi = S.int("lo"), S.int("hi")
    S.assume(lo < hi)
    x = S.arr("x", n)
    root = _Deep(x)
    root.bounds = (S.array([lo * 1.0]) if side in ("both", "lower") else None, S.array([hi * 1.0]) if side in ("both", "upper") else None)
    lay = _layering.Int()
    root.add_layer(lay)
    y = lay._layered_get_value()
    S.prove("same-length", S.len(y) == n)
    if side in ("both", "lower"):
        S.prove("above-lower", S.forall(n, lambda i: y[i] >= lo))
    if side in ("both", "upper"):
        S.prove("below-upper", S.forall(n, lambda i: y[i] <= hi))
    inside = S.forall(n, lambda i: S.land(S.lor(side not in ("both", "lower"), x[i] >= lo), S.lor(side not in ("both", "upper"), x[i] <= hi)))
    S.prove("nearest", S.implies(inside, lambda: S.forall(n, lambda i: S.land(S.le(y[i] - 0.5, x[i]), S.le(x[i], y[i] + 0.5)))))


@contract("C01", [DL + "Modulo._layered_get_value", DL + "Modulo.__init__"])
def modulo_read(S):
    n = S.int("n", 1)
    m = S.real("m", 0.01, 1000)
    x = S.arr("x", n, -1e6, 1e6)
    root = _Deep(x)
    lay = _datalayers.Modulo(m)
    root.add_layer(lay)
    y = lay._layered_get_value()
    S.prove("inside", S.forall(n, lambda i: S.land(0 <= y[i], S.le(y[i], m))))


@contract("C01", [DL + "BoundLayer.set_normalized_value", DL + "BoundLayer.get_normalized_value", DL + "BoundLayer._normalizer", "nevergrad.parametrization.transforms:Affine.forward"])
def normalized_value(S):
    """uniform sampling inside bounds: values in [0, 1] are mapped onto the bounds"""
    n = S.int("n", 1)
    lo, hi = S.real("lo", -1e6, 1e6), S.real("hi", -1e6, 1e6)
    S.assume(hi - lo > 1e-3)
    u = S.arr("u", n, 0, 1)
    root = _Deep(u)
    lay = _datalayers.Bound(lower=lo, upper=hi, method=S.choose("method", ["bouncing", "clipping"]))
    root.add_layer(lay)
    new = lay._normalizer().backward(u)
    S.prove("inside", S.forall(n, lambda i: S.land(S.le(lo, new[i]), S.le(new[i], hi))))
    S.prove("affine", S.forall(n, lambda i: S.eq(new[i], lo + u[i] * (hi - lo))))


# ------------------------------------------------------------------------------------------------ through the whole API
from contracts import gen  # noqa


@bounded("C01", ["nevergrad.parametrization.data:Data.set_bounds", "nevergrad.parametrization.data:Scalar.__init__", "nevergrad.parametrization.data:Log.__init__"], trials=400, conc_s=15,
         bound="random parametrizations of depth <= 2; data from normal(0, 1e-3..1e6); chains of at most 6 operations")
def api_values_inside(S):
    r = gen.rs(S)
    pr, check = gen.tree(r, int(r.randint(0, 3)))
    pr.random_state.seed(int(r.randint(2**31)))
    S.prove("initial", check(pr.value), value=pr.value)
    pop = [pr]
    for k in range(6):
        base = pop[r.randint(len(pop))]
        op = r.randint(5)
        if op == 0:
            new = base.sample()
        elif op == 1:
            new = base.spawn_child()
            new.mutate()
        elif op == 2:
            new = base.spawn_child()
            new.set_standardized_data(r.normal(size=pr.dimension) * 10 ** r.uniform(-3, 6), reference=pr)
        elif op == 3:
            new = base.spawn_child()
            new.recombine(pop[r.randint(len(pop))])
        else:
            new = base.spawn_child()
            new.set_standardized_data(r.choice([-1e12, 0, 1e12, 30, -30], size=pr.dimension) * 1.0)
        S.prove("inside", check(new.value), value=new.value, op=int(op), param=repr(pr.name))
        S.prove("inside-on-reread", check(new.value), value=new.value, op=int(op))
        pop.append(new)


@bounded("C01", ["nevergrad.optimization.base:Optimizer.ask"], trials=60, conc_s=12, bound="9 optimizers, <= 25 asks each, random bounded parametrizations")
def api_optimizers_inside(S):
    import nevergrad as ng

    r = gen.rs(S)
    pr, check = gen.tree(r, int(r.randint(0, 2)))
    if pr.dimension == 0:
        return
    pr.random_state.seed(int(r.randint(2**31)))
    names = ["OnePlusOne", "DE", "PSO", "RandomSearch", "LHSSearch", "TwoPointsDE", "DiscreteOnePlusOne", "CMA", "TBPSA"]
    opt = ng.optimizers.registry[names[r.randint(len(names))]](pr, budget=25, num_workers=1)
    for _ in range(25):
        c = opt.ask()
        S.prove("inside", check(c.value), value=c.value, opt=opt.name)
        opt.tell(c, float(r.normal()))
    S.prove("recommendation-inside", check(opt.provide_recommendation().value))
