"""C05: a value that is set is the value that is read, through every layer; layers are ordered by level, whatever the
order in which they are added; integer casting and bounds are those announced."""
import itertools
import warnings
import numpy as np
from ngvc.harness import contract, bounded
import nevergrad as ng
from nevergrad.common import errors
from nevergrad.parametrization import _datalayers, _layering, transforms, parameter as p
from contracts import gen
from contracts.c01_bounds import _Deep
from contracts.c03_stddata import _array, _norandom

D = "nevergrad.parametrization.data:"
DL = "nevergrad.parametrization._datalayers:"
LY = "nevergrad.parametrization._layering:"


@contract("C05", [DL + "Add.forward", DL + "Add.backward", DL + "Multiply.forward", DL + "Multiply.backward", DL + "Exponent.forward", DL + "Exponent.backward",
                  DL + "ForwardableOperation._layered_get_value", DL + "ForwardableOperation._layered_set_value", D + "Data._new_with_data_layer",
                  D + "Data.__add__", D + "Data.__mul__", D + "Data.__rpow__", D + "Data.__pow__", DL + "Power.forward", DL + "Power.backward", D + "Data.__sub__", D + "Data.__neg__", D + "Data.__truediv__", LY + "ValueProperty.__set__", LY + "ValueProperty.__get__"], trials=150)
def operations(S):
    """arithmetic on a parameter: the value is the operation applied on the inner value, and writing is its inverse"""
    n = S.int("n", 1)
    base = _array(S, "init", n)
    c = S.real("c", 0.05, 20)
    kind = S.choose("kind", ["add", "radd", "sub", "mul", "rmul", "neg", "div", "rpow", "add-mul", "mul-add", "square", "sqrt", "inverse"])
    v0 = base.value
    new, f = {
        "add": lambda: (base + c, lambda x: x + c), "radd": lambda: (c + base, lambda x: x + c), "sub": lambda: (base - c, lambda x: x - c),
        "mul": lambda: (base * c, lambda x: x * c), "rmul": lambda: (c * base, lambda x: x * c), "neg": lambda: (-base, lambda x: -x),
        "div": lambda: (base / c, lambda x: x / c), "rpow": lambda: (_guard(S, base, c, n), None),
        "square": lambda: (base**2, lambda x: x * x), "sqrt": lambda: (_domain(S, base, n, 0) ** 0.5, None), "inverse": lambda: (_domain(S, base, n, 0.01) ** -1, None),
        "add-mul": lambda: ((base + c) * 2, lambda x: 2 * (x + c)), "mul-add": lambda: (2 * base + c, lambda x: 2 * x + c),
    }[kind]()
    v = new.value
    if f is not None:
        S.prove("operation", S.forall(n, lambda i: S.eq(v[i], f(v0[i]), tol=1e-6)))
    if kind in ("rpow", "square", "sqrt", "inverse"):
        x = S.arr("x", n, gen=lambda r: 10 ** r.uniform(-20, 2))
        S.assume(S.forall(n, lambda i: S.land(1e-20 <= x[i], x[i] <= 100)))
    else:
        x = S.arr("x", n, -50, 50)
    new.value = x
    w = new.value
    S.prove("set-then-read", S.forall(n, lambda i: S.abs(w[i] - x[i]) <= (1e-9 * x[i] if kind in ("square", "sqrt", "inverse") else 1e-9 + 1e-9 * S.abs(x[i]) if kind != "rpow" else 1e-7 * x[i])))
    u = base.value
    S.prove("original-untouched", S.forall(n, lambda i: S.eq(u[i], v0[i])))


def _guard(S, base, c, n):
    S.assume(S.lor(c > 1.2, c < 0.8))
    if not S.symbolic:
        S.assume(bool(np.all(np.abs(base.value * np.log(c)) < 100)))
    return c**base


def _domain(S, base, n, lo):
    v = base.value
    S.assume(S.forall(n, lambda i: v[i] >= lo))
    return base


@contract("C05", [DL + "Bound._layered_set_value", DL + "Bound._layered_get_value", DL + "BoundLayer.__init__"], trials=150)
def bounded_set_then_read(S):
    n = S.int("n", 1)
    lo, hi = S.real("lo", -50, 50), S.real("hi", -50, 50)
    S.assume(hi - lo > 0.1)
    method = S.choose("method", ["bouncing", "clipping", "arctan", "tanh", "gaussian"])
    root = _Deep(S.arr("x0", n, -1, 1))
    lay = _datalayers.Bound(lower=lo, upper=hi, method=method)
    root.add_layer(lay)
    x = S.arr("x", n)
    inside = S.forall(n, lambda i: S.land(lo <= x[i], x[i] <= hi))
    strict = S.forall(n, lambda i: S.land(lo + 1e-3 * (hi - lo) <= x[i], x[i] <= hi - 1e-3 * (hi - lo)))
    try:
        lay._layered_set_value(x)
        raised = False
    except ValueError:
        raised = True
    if raised:
        S.prove("rejected-only-outside", S.lnot(inside))
        return
    S.prove("outside-rejected", inside)
    y = lay._layered_get_value()
    S.prove("set-then-read", S.implies(strict, lambda: S.forall(n, lambda i: S.abs(y[i] - x[i]) <= 1e-5 * (hi - lo))))


@contract("C05", [DL + "Modulo._layered_set_value", DL + "Modulo._layered_get_value", DL + "BoundLayer._check", "nevergrad.parametrization.utils:BoundChecker.__call__"], trials=150)
def modulo_set_then_read(S):
    n = S.int("n", 1)
    m = S.real("m", 0.1, 100)
    x0 = S.arr("x0", n, -1000, 1000)
    root = _Deep(x0)
    lay = _datalayers.Modulo(m)
    root.add_layer(lay)
    x = S.arr("x", n)
    inside = S.forall(n, lambda i: S.land(0 <= x[i], x[i] < m))
    if not S.symbolic:
        S.assume(bool(np.all(x < m * (1 - 1e-6))))
    try:
        lay._layered_set_value(x)
        raised = False
    except ValueError:
        raised = True
    if raised:
        S.prove("rejected-only-outside", S.lnot(inside))
        return
    y = lay._layered_get_value()
    d = root._x
    S.prove("set-then-read", S.implies(inside, lambda: S.forall(n, lambda i: S.lor(S.abs(y[i] - x[i]) <= 1e-6, S.land(not S.symbolic, S.abs(S.abs(y[i] - x[i]) - m) <= 1e-6)))))
    S.prove("closest-representative", S.forall(n, lambda i: S.abs(d[i] - x0[i]) <= m + 1e-6))


@contract("C05", [D + "Data.bounds"], trials=150)
def announced_bounds(S):
    """the bounds announced by a parameter contain all its values, through increasing and decreasing operations"""
    n = S.int("n", 1)
    lo, hi = S.real("lo", -50, 50), S.real("hi", -50, 50)
    S.assume(hi - lo > 0.1)
    side = S.choose("side", ["both", "lower", "upper"])
    kind = S.choose("kind", ["neg", "add", "mul", "mul-neg", "none"])
    c = S.real("c", 0.1, 10)
    base = _array(S, "init", n)
    lay = _datalayers.Bound(lower=lo if side != "upper" else None, upper=hi if side != "lower" else None, method="clipping")
    base.add_layer(lay)
    x = S.arr("x", n)
    base._value = x
    new = {"neg": lambda: -base, "add": lambda: base + c, "mul": lambda: base * c, "mul-neg": lambda: base * (-c), "none": lambda: base}[kind]()
    b = new.bounds
    v = new.value
    neg = kind in ("neg", "mul-neg")
    S.prove("same-sides", (b[0] is None) == (side == ("lower" if neg else "upper")) and (b[1] is None) == (side == ("upper" if neg else "lower")))
    if b[0] is not None:
        S.prove("above-lower", S.forall(n, lambda i: S.le(b[0][0], v[i])))
    if b[1] is not None:
        S.prove("below-upper", S.forall(n, lambda i: S.le(v[i], b[1][0])))


@contract("C05", [LY + "_ScalarCasting._layered_get_value", LY + "_ScalarCasting._layered_set_value"], trials=100)
def scalar_casting(S):
    x, y = S.real("x"), S.real("y")
    root = _Deep(S.array([x]))
    lay = _layering._ScalarCasting()
    root.add_layer(lay)
    S.prove("read", S.eq(lay._layered_get_value(), x))
    lay._layered_set_value(y)
    S.prove("set-then-read", S.eq(lay._layered_get_value(), y))
    S.prove("array-below", S.eq(root._x[0], y))


LEVELS = [_layering.Level.OPERATION, _layering.Level.INTEGER_CASTING, _layering.Level.ARRAY_CASTING, _layering.Level.SCALAR_CASTING, _layering.Level.CONSTRAINT]


def _mk(level):
    class L(_layering.Layered):
        _LAYER_LEVEL = level

    return L()


def _log_increasing(S):
    if S.symbolic:
        import z3
        from ngvc import arr

        x, y = z3.Reals("x y")
        S.c.trusted.add("log and exp: increasing")
        S.c.axiom("log_inc", z3.ForAll([x, y], z3.Implies(z3.And(x > 0, y > 0), (x <= y) == (arr.LOG(x) <= arr.LOG(y))), patterns=[z3.MultiPattern(arr.LOG(x), arr.LOG(y))]))
        S.c.axiom("exp_inc", z3.ForAll([x, y], (x <= y) == (arr.EXP(x) <= arr.EXP(y)), patterns=[z3.MultiPattern(arr.EXP(x), arr.EXP(y))]))


def _no_names(S):
    """the names of the bounds (display only) are not formatted: it would split on whether each of them is an integer"""
    if S.symbolic:
        S.patch(transforms, "_f", lambda x: "bound", both=True)


def _layers_of(S, par, cls):
    return [x for x in par._layers if isinstance(x, cls)]


@contract("C05", [D + "Scalar.__init__", D + "Data.__init__", D + "Data.set_bounds", D + "Data.set_mutation", DL + "BoundLayer.__call__", DL + "Bound.__init__", DL + "BoundLayer.__init__", LY + "Layered.add_layer",
                  LY + "_ScalarCasting._layered_get_value", LY + "_ScalarCasting._layered_set_value"], trials=150, also=("C01",))
def scalar_init(S):
    """a scalar starts at init (by default the middle of its bounds, or 0), refuses an init or a value out of its bounds, and reads back the value it is given"""
    given = S.choose("bounds", ["none", "both", "lower", "upper"])
    with_init = S.choose("init", [True, False])
    lo = S.real("lo", -50, 50) if given in ("both", "lower") else None
    hi = S.real("hi", -50, 50) if given in ("both", "upper") else None
    if given == "both":
        S.assume(hi - lo > 0.1)
    init = S.real("v0", -60, 60) if with_init else None
    inside = lambda v: S.land(True if lo is None else lo <= v, True if hi is None else v <= hi)
    start = init if with_init else (lo + hi) / 2 if given == "both" else 0.0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            s = p.Scalar(init=init, lower=lo, upper=hi)
        except errors.NevergradValueError:
            S.prove("refused-only-outside", S.lnot(inside(start)))
            return
    S.prove("outside-refused", inside(start))
    S.prove("initial-value", S.eq(s.value, start))
    if given == "both":
        S.prove("sigma", S.eq(s.sigma.value, (hi - lo) / 6))
    bl = _layers_of(S, s, _datalayers.Bound)
    S.prove("bound-layers", len(bl) == (given != "none"))
    if bl:
        S.prove("full-range", bl[0].uniform_sampling == (given == "both" and not with_init))
        S.prove("bounds", S.land(*[(b is None) == (w is None) and (w is None or S.eq(b[0], w)) for b, w in zip(bl[0].bounds, (lo, hi))]))
    x = S.real("x", -60, 60)
    try:
        s.value = x
    except ValueError:
        S.prove("value-refused-only-outside", S.lnot(inside(x)))
        S.prove("value-kept-when-refused", S.eq(s.value, start))
        return
    S.prove("outside-value-refused", inside(x))
    S.prove("set-then-read", S.eq(s.value, x))


@contract("C05", [D + "Log.__init__", D + "Scalar.__init__", DL + "Bound.__init__", DL + "BoundLayer.__call__", DL + "Exponent.backward", DL + "Exponent.forward"], trials=150, also=("C01",))
def log_init(S):
    """a log-distributed scalar starts at init (by default the geometric mean of its bounds), and reads back the value it is given"""
    _log_increasing(S)
    _no_names(S)
    given = S.choose("bounds", ["none", "both", "lower", "upper"])
    with_init = S.choose("init", [True, False])
    lo = S.real("lo", 0.001, 1) if given in ("both", "lower") else None
    hi = S.real("hi", 2, 1000) if given in ("both", "upper") else None
    exponent = S.choose("exponent", [None, 10.0])
    init = S.real("v0", 0.0001, 2000) if with_init else None
    x = S.real("x", 0.0001, 2000)
    start = init if with_init else (lo * hi) ** 0.5 if given == "both" else None
    if S.symbolic and given == "both" and exponent is None:  # dividing by a positive constant keeps the order
        from ngvc import arr
        from ngvc.core import toz, toreal

        log = lambda v: arr.LOG(toreal(toz(v)))
        big = arr.LOG(arr.EXP((log(hi) - log(lo)) / 6))
        S.c.prove("exponent-positive", big > 0)
        import z3

        u, v, w = z3.Reals("u v w")
        S.c.prove("division-increasing", z3.ForAll([u, v, w], z3.Implies(w > 0, (u / w <= v / w) == (u <= v))))
        if not with_init:
            S.c.prove("mean-inside", z3.And(toz(lo) <= toz(start), toz(start) <= toz(hi)))
        for a, b in [(lo, start), (start, hi), (lo, x), (x, hi), (lo, hi)]:
            S.c.prove("order", (log(a) / big <= log(b) / big) == (log(a) <= log(b)))
            S.c.prove("increasing", (log(a) <= log(b)) == (toreal(toz(a)) <= toreal(toz(b))))
    within = lambda v, tol: S.land(True if lo is None else lo * (1 - tol) <= v, True if hi is None else v <= hi * (1 + tol))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            s = p.Log(init=init, lower=lo, upper=hi, exponent=exponent)
        except errors.NevergradValueError:
            S.prove("refused-only-outside", S.lnot(within(start, -1e-6)))
            return
        except ValueError:
            S.prove("something-to-start-from", not with_init and given != "both")
            return
    if not with_init:
        S.prove("start-known", given == "both")
        S.assume(given == "both")
    S.prove("outside-refused", within(start, 1e-6))
    S.prove("initial-value", S.abs(s.value - start) <= 1e-6 * start)
    exps = _layers_of(S, s, _datalayers.Exponent)
    S.prove("exponent", len(exps) == 1)
    if exponent is not None or given != "both":
        S.prove("base", exps[0]._base == (exponent or 2.0))
    try:
        s.value = x
    except ValueError:
        S.prove("value-refused-only-outside", S.lnot(within(x, -1e-6)))
        return
    S.prove("outside-value-refused", within(x, 1e-6))
    S.prove("set-then-read", S.abs(s.value - x) <= 1e-6 * x)


@contract("C05", [D + "Data.set_bounds", D + "Data.set_mutation", D + "_fix_legacy", DL + "BoundLayer.__call__", DL + "Exponent.backward", LY + "Layered.add_layer"], trials=150, also=("C01",))
def bounds_and_exponent(S):
    """the exponent and the bounds can be given in any order: the value is kept, and stays within the bounds whatever the data"""
    _log_increasing(S)
    _no_names(S)
    n = S.int("n", 1)
    v0 = S.arr("init", n, 0.01, 100)
    lo, hi = S.real("lo", 0.001, 1), S.real("hi", 2, 1000)
    base = 10.0 if S.symbolic else S.choose("base", [1.5, 10.0])
    order = S.choose("order", ["bounds", "exponent", "bounds-exponent", "exponent-bounds"])
    method = S.choose("method", ["bouncing", "clipping"])
    par = p.Array(init=v0)
    inside = lambda v, tol: S.forall(n, lambda i: S.land(lo * (1 - tol) <= v[i], v[i] <= hi * (1 + tol)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            for step in order.split("-"):
                if step == "bounds":
                    par.set_bounds(lo, hi, method=method)
                else:
                    par.set_mutation(exponent=base)
        except errors.NevergradValueError:
            S.prove("refused-only-outside", S.lnot(inside(v0, -1e-6)))
            return
    if "bounds" in order:
        S.prove("outside-refused", inside(v0, 1e-6))
    v = par.value
    S.prove("value-kept", S.forall(n, lambda i: S.abs(v[i] - v0[i]) <= 1e-6 * v0[i]))


@bounded("C05", [LY + "Layered.add_layer", LY + "Layered.copy", LY + "Layered._call_deeper"], trials=250, bound="at most 7 layers in any order of addition")
def layer_order(S):
    """layers are sorted by level, in order of addition within a level; indices and sharing are consistent"""
    r = gen.rs(S)
    root = _mk(_layering.Level.ROOT)
    added = []
    for _ in range(r.randint(0, 8)):
        lay = _mk(LEVELS[r.randint(len(LEVELS))])
        root.add_layer(lay)
        added.append(lay)
        exp = [root] + sorted(added, key=lambda x: x._LAYER_LEVEL.value)
        S.prove("sorted-stable", len(root._layers) == len(exp) and all(a is b for a, b in zip(root._layers, exp)))
        S.prove("indices", [x._layer_index for x in root._layers] == list(range(len(root._layers))))
        S.prove("shared", all(x._layers is root._layers for x in root._layers))
    cp = root.copy()
    S.prove("copy-same-levels", [x._LAYER_LEVEL for x in cp._layers] == [x._LAYER_LEVEL for x in root._layers])
    S.prove("copy-new-layers", all(a is not b for a, b in zip(cp._layers, root._layers)) and all(x._layers is cp._layers for x in cp._layers))
    if added:
        try:
            added[0].add_layer(_mk(LEVELS[0]))
            S.fail("only-from-root")
        except RuntimeError:
            pass


@bounded("C05", [DL + "BoundLayer.__call__", D + "_fix_legacy", D + "Data.set_mutation", D + "Data.set_bounds", "nevergrad.parametrization.choice:BaseChoice._layered_set_value",
                 "nevergrad.parametrization.container:Dict._layered_set_value", "nevergrad.parametrization.container:Tuple._layered_set_value", DL + "AngleOp._layered_set_value", DL + "Power.backward"],
         trials=400, conc_s=15, bound="random parametrizations of depth <= 3")
def api_set_then_read(S):
    r = gen.rs(S)
    pr, check = gen.tree(r, int(r.randint(0, 4)), None)
    pr.random_state.seed(int(r.randint(2**31)))
    other = pr.sample()
    v = other.value
    S.prove("stable-read", gen.eqval(v, other.value, 0))
    target = pr.spawn_child()
    target.value = v
    S.prove("set-then-read", gen.eqval(target.value, v), v=v, got=target.value, name=pr.name)
    if not isinstance(pr, p.Constant):
        S.prove("new-value-argument", gen.eqval(pr.spawn_child(new_value=v).value, v))
    # the standardized data changes accordingly
    z = target.get_standardized_data(reference=pr)
    S.prove("finite-data", bool(np.all(np.isfinite(z))))


@bounded("C05", [D + "_fix_legacy", D + "Log.__init__", LY + "Int._layered_get_value"], trials=200, bound="one parameter, random bounds, exponents, powers and integer casting")
def api_builders(S):
    r = gen.rs(S)
    k = r.randint(6)
    if k == 0:  # order of set_bounds and set_mutation(exponent) does not matter
        lo = float(r.uniform(0.01, 1))
        hi = lo * float(r.uniform(3, 1000))
        e = float(r.uniform(1.3, 10))
        init = float(np.sqrt(lo * hi))
        a = p.Scalar(init=init).set_bounds(lo, hi, method="clipping").set_mutation(exponent=e)
        b = p.Scalar(init=init).set_mutation(exponent=e).set_bounds(lo, hi, method="clipping")
        x = r.normal(size=1) * 5
        va = a.spawn_child().set_standardized_data(x).value
        vb = b.spawn_child().set_standardized_data(x).value
        S.prove("legacy-order", gen.eqval(va, vb) and lo - 1e-9 <= va <= hi * (1 + 1e-9))
        S.prove("legacy-value", gen.eqval(a.value, init) and gen.eqval(b.value, init))
    elif k == 1:
        v = r.uniform(0.1, 5, size=3)
        q = p.Array(init=[1.0, 2.0, 3.0]) ** float(r.choice([2, 3, 0.5, -1]))
        q.value = v
        S.prove("power", gen.eqval(q.value, v))
    elif k == 2:
        n = int(r.randint(1, 5))
        ints = r.randint(-9, 9, size=n)
        q = p.Array(init=np.zeros(n)).set_integer_casting()
        q.value = ints
        S.prove("integers", q.value.dtype == int and q.value.tolist() == ints.tolist())
        q = p.Array(init=np.zeros(n), lower=-9, upper=9).set_integer_casting()
        q.value = ints.astype(float)
        S.prove("integers", q.value.tolist() == ints.tolist())
    elif k == 3:
        n = int(r.randint(1, 4))
        deg = bool(r.randint(2))
        v = r.uniform(-np.pi, np.pi, size=n) * (180 / np.pi if deg else 1)
        q = p.Angles(init=v, deg=deg)
        S.prove("angles", gen.eqval(q.value, v))
        w = q.sample().value
        q2 = q.spawn_child(new_value=w)
        S.prove("angles", gen.eqval(q2.value, w))
    elif k == 4:  # random rounding gives one of the two neighbours and reading does not change the data
        x = r.uniform(-5, 5, size=6)
        q = ng.ops.Int(deterministic=False)(p.Array(init=x))
        before = q.get_standardized_data(reference=p.Array(init=np.zeros(6)) if False else q.copy())
        data = np.array(q._value)
        for _ in range(5):
            c = q.spawn_child()
            v = c.value
            S.prove("neighbour", bool(np.all((v == np.floor(x)) | (v == np.ceil(x)) | (np.abs(v - x) <= 1))))
            S.prove("same-read", c.value.tolist() == v.tolist())
            S.prove("data-unchanged-by-reading", bool(np.all(c._value == data)))
    else:
        lo = float(10 ** r.uniform(-5, 1))
        hi = lo * float(10 ** r.uniform(0.3, 4))
        q = p.Log(lower=lo, upper=hi)
        S.prove("log-middle", gen.eqval(q.value, np.sqrt(lo * hi)))
        x = float(np.exp(r.uniform(np.log(lo) + 1e-6, np.log(hi) - 1e-6)))
        q.value = x
        S.prove("log-set", gen.eqval(q.value, x))
        z = p.Log(lower=lo, upper=hi).spawn_child().set_standardized_data([3.0]).value
        S.prove("log-3-sigma", gen.eqval(z, hi))
