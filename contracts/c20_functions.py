"""C20: test functions: core functions, blocks, transforms, noise."""
import itertools
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded, partial
from ngvc.seq import Inv
from nevergrad.functions import base, corefuncs, functionlib, utils
from contracts import gen

C = "nevergrad.functions.corefuncs:"
F = "nevergrad.functions.functionlib:"
B = "nevergrad.functions.base:"
U = "nevergrad.functions.utils:"


def _core(name):
    return corefuncs.registry[name]


def _exp_facts(S):
    if S.symbolic:
        import z3
        from ngvc import arr

        x, y = z3.Reals("x y")
        c = S.c
        c.trusted.add("exp: increasing, exp(0) == 1, exp(1) is the double math.exp(1)")
        c.axiom("exp_mono", z3.ForAll([x, y], (x <= y) == (arr.EXP(x) <= arr.EXP(y)), patterns=[z3.MultiPattern(arr.EXP(x), arr.EXP(y))]))
        import fractions, math
        e = fractions.Fraction(math.e)
        c.axiom("exp_01", z3.And(arr.EXP(z3.RealVal(0)) == 1, arr.EXP(z3.RealVal(1)) == z3.Q(e.numerator, e.denominator)))


def _point(S, name, n, opt):
    """any point, or the optimum"""
    x = S.arr(name, n)
    return x


SUMS = {"sphere": 0.0, "sphere1": 1.0, "sphere2": 2.0, "sphere4": 4.0, "cigar": 0.0, "altcigar": 0.0, "discus": 0.0, "ellipsoid": 0.0,
        "altellipsoid": 0.0, "schwefel_1_2": 0.0, "rosenbrock": 1.0, "rastrigin": 0.0, "doublelinearslope": 0.0, "griewank": 0.0, "DelayedSphere": 0.0,
        "lunacek": 2.5, "ackley": 0.0}
UNIQUE = ["sphere", "sphere1", "sphere2", "sphere4", "cigar", "altcigar", "discus", "ellipsoid", "altellipsoid", "rastrigin", "DelayedSphere", "griewank", "lunacek", "ackley"]


def _minimum(name):
    def check(S):
        n = S.size("n", 1, 6)
        S.assume(n >= (2 if name == "rosenbrock" else 1))
        _exp_facts(S)
        f = _core(name)
        where = S.choose("where", ["any", "optimum"])
        if where == "any":
            x = S.arr("x", n)
        else:
            v = SUMS[name]
            if not S.symbolic and S.choose("large", [False, False, True]):
                n = S.int("large_n", 7, 1000)
            x = S.array(S.seqof(n, lambda k: v))
        val = f(x)
        if where == "any":
            S.prove("minimum", S.le(0, val, 1e-9), value=val)
            if name in UNIQUE:
                k = S.int("k", 0, None if S.symbolic else 5)
                if S.symbolic:
                    S.assume(k < n)
                else:
                    k = k % n
                if name.startswith("alt"):
                    k = n - 1 - k  # the k-th term is about the k-th coordinate from the end
                S.prove("only-at-optimum", S.implies(S.lnot(S.eq(x[k], SUMS[name], 1e-4)), val > 0))
        else:
            S.prove("reached", S.eq(val, 0, 1e-9), value=val)
    check.__doc__ = f"{name}: its minimum 0 is reached at {SUMS[name]}" + (" only" if name in UNIQUE else "") + ", in any dimension"
    check.__name__ = f"min_{name}"
    funcs = [C + name if name != "DelayedSphere" else C + "DelayedSphere.__call__"]
    contract("C20", funcs, trials=60)(check)


for _n in SUMS:
    _minimum(_n)


@contract("C20", [C + "rosenbrock"], trials=100)
def rosenbrock_unique(S):
    """the valley leads to the only minimum: positive as soon as a coordinate (but the last) is not 1, or the last is not the square of the previous one"""
    n = S.size("n", 2, 6)
    S.assume(n >= 2)
    x = S.arr("x", n)
    k = S.int("k", 0, None if S.symbolic else 6)
    k = k if S.symbolic else k % (n - 1)
    S.assume(k < n - 1)
    v = corefuncs.rosenbrock(x)
    S.prove("square", S.implies(S.lnot(S.eq(x[k], 1, 1e-4)), (x[k] - 1) * (x[k] - 1) > 0))
    S.prove("not-one", S.implies(S.lnot(S.eq(x[k], 1, 1e-4)), v > 0))
    S.prove("not-square", S.implies(S.lnot(S.eq(x[k + 1], x[k] * x[k], 1e-4)), v > 0))


@contract("C20", [C + "schwefel_1_2"], trials=100)
def schwefel_unique(S):
    """positive as soon as a partial sum is not zero"""
    n = S.size("n", 1, 6)
    S.assume(n >= 1)
    x = S.arr("x", n)
    v = corefuncs.schwefel_1_2(x)
    S.prove("first", S.implies(S.lnot(S.eq(x[0], 0, 1e-4)), v > 0))


@contract("C20", [C + "hm"], trials=60)
def hm_positive(S):
    """hm is at least a tenth of the square norm out of the singular axes"""
    n = S.size("n", 1, 6)
    x = S.arr("x", n)
    S.assume(S.forall(n, lambda k: S.lnot(S.eq(x[k], 0, 1e-3))))
    v = corefuncs.hm(x)
    S.prove("minimum", S.le(0, v))
    k = S.int("k", 0, None if S.symbolic else 0)
    S.assume(k < n)
    S.prove("only-at-optimum", v > 0)


@contract("C20", [C + "genzgaussianpeakintegral", C + "minusgenzgaussianpeakintegral"], trials=60)
def gaussian_peak(S):
    """the peak 1 (the minimum -1 of the opposite function) is at 0"""
    n = S.size("n", 1, 6)
    _exp_facts(S)
    x = S.arr("x", n)
    if S.bool("minus"):
        v = -corefuncs.minusgenzgaussianpeakintegral(x)
    else:
        v = corefuncs.genzgaussianpeakintegral(x)
    S.prove("range", S.land(S.le(0, v), S.le(v, 1)))
    z = S.array(S.seqof(n, lambda k: 0.0))
    S.prove("peak", S.land(S.eq(corefuncs.genzgaussianpeakintegral(z), 1), S.eq(corefuncs.minusgenzgaussianpeakintegral(z), -1)))


@contract("C20", [C + "deceptivepath", C + "deceptivemultimodal"], trials=150)
def deceptive(S):
    """minimum 0 at the origin only, at most 1 out of the path"""
    n = S.size("n", 2, 5)
    S.assume(n >= 2)
    f = S.choose("function", [corefuncs.deceptivepath, corefuncs.deceptivemultimodal])
    x = S.arr("x", n)
    if S.bool("optimum"):
        z = S.array(S.seqof(n, lambda k: 0.0))
        S.prove("reached", f(z) == 0)
        return
    v = f(x)
    S.prove("minimum", v >= 0)
    S.prove("only-at-optimum", S.implies(S.lor(S.lnot(S.eq(x[0], 0, 1e-6)), S.lnot(S.eq(x[1], 0, 1e-6))), v > 0))


@contract("C20", [C + "step", C + "stepellipsoid", C + "stepdoublelinearslope"], trials=100)
def steps(S):
    """steps are positive and do not decrease"""
    f = S.choose("function", [corefuncs.stepellipsoid, corefuncs.stepdoublelinearslope])
    n = S.size("n", 1, 5)
    S.assume(n >= 1)
    S.prove("positive", S.le(0, f(S.arr("x", n))))


# ------------------------------------------------------------------------------------- transforms and blocks
@contract("C20", [U + "Transform.__init__", U + "Transform.__call__"], trials=200)
def transform_translation(S):
    """without rotation, the selected coordinates minus the translation, which is a (power of a) normal vector times the factor"""
    n, m = S.size("n", 1, 5), S.size("dim", 1, 8)
    S.assume(S.land(n >= 1, m >= 1))
    idx = S.ints("indices", n, 0, m - 1)
    factor, expo = S.real("factor"), S.choose("expo", [1.0, 3.0])
    rng = S.rng_stub()
    t = utils.Transform(idx, translation_factor=factor, rotation=False, random_state=rng, expo=expo)
    S.prove("one-translation-per-index", S.len(t.translation) == n)
    S.prove("no-rotation", t.rotation_matrix is None)
    x = S.arr("x", m)
    x0 = x + 0.0
    y = t(x)
    S.prove("size", S.len(y) == n)
    S.prove("translated", S.forall(n, lambda k: S.eq(S.at(y, k), S.at(x, S.at(idx, k)) - S.at(t.translation, k))))
    S.prove("input-unchanged", S.forall(m, lambda k: S.eq(S.at(x, k), S.at(x0, k))))
    z = utils.Transform(idx, translation_factor=0.0, rotation=False, random_state=rng, expo=expo)
    S.prove("factor-scales", S.forall(n, lambda k: S.eq(S.at(z.translation, k), 0)))


@partial("C20", [U + "Transform.__init__", U + "Transform.__call__"], trials=200, bound="blocks of at most 4 rotated coordinates, any dimension and values")
def transform_rotation(S):
    """with rotation, the matrix is the orthogonal factor of a random square matrix and is applied after the translation"""
    n = S.choose("n", [1, 2, 3, 4])
    m = S.size("dim", 4, 8)
    S.assume(m >= 1)
    idx = [S.int(f"i{k}", 0, m - 1) for k in range(n)]
    rng = S.rng_stub()
    t = utils.Transform(idx, translation_factor=S.real("factor"), rotation=True, random_state=rng)
    q = t.rotation_matrix
    if S.symbolic:
        S.prove("orthogonal-factor", hasattr(q, "qr_of") and tuple(q.qr_of.shape) == (n, n))
    else:
        S.prove("orthogonal", np.allclose(q.T.dot(q), np.eye(n), atol=1e-8))
    x = S.arr("x", m)
    y = t(x)
    S.prove("size", S.len(y) == n)
    d = [x[idx[k]] - t.translation[k] for k in range(n)]
    for i in range(n):
        S.prove("rotated", S.eq(y[i], sum(q[i, k] * d[k] for k in range(n)), 1e-6))


@partial("C20", [F + "ArtificialVariable._initialize"], trials=200, bound="at most 4 useful coordinates (any number of useless ones), any block structure of them")
def blocks(S):
    """disjoint sorted blocks of the requested size, all with the requested transform"""
    nb, bd = S.choose("structure", [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)])
    dim = S.size("dim", 4, 10)
    S.assume(dim >= nb * bd)
    rng = S.rng_stub()
    made = []
    kw = dict(translation_factor=object(), rotation=object(), expo=object())  # passed through
    S.patch(utils, "Transform", lambda indices, **k: made.append((list(indices), k)) or ("transform", len(made) - 1), both=True)
    v = functionlib.ArtificialVariable(dim, nb, bd, kw["translation_factor"], kw["rotation"], False, False, rng, kw["expo"])
    S.prove("delayed", len(v._transforms) == 0 and v.dimension == dim)
    v._initialize()
    S.prove("number", len(made) == nb and [k for _, k in v._transforms] == list(range(nb)))
    S.prove("sizes", all(len(ix) == bd for ix, _ in made))
    S.prove("same-settings", all(k["translation_factor"] is kw["translation_factor"] and k["rotation"] is kw["rotation"] and k["expo"] is kw["expo"] and k["random_state"] is rng and len(k) == 4 for _, k in made))
    flat = [i for ix, _ in made for i in ix]
    S.prove("in-range", S.land(*[S.land(i >= 0, i < dim) for i in flat]))
    S.prove("disjoint-and-sorted", S.land(True, *[a < b for a, b in zip(flat[:-1], flat[1:])]))


class _Tr:
    def __init__(self, indices, out):
        self.indices, self.out, self.seen = indices, out, []

    def __call__(self, data):
        self.seen.append(data)
        return self.out


@contract("C20", [F + "ArtificialVariable.process"], trials=200)
def process(S):
    """one line per block, in order: the transform of the data, or its bare selection when no transform is wanted"""
    m = S.choose("blocks", [1, 2, 3])
    b, d = S.size("block", 1, 3), S.size("dim", 3, 6)
    S.assume(S.land(b >= 1, d >= 1))
    only = S.bool("only_index")
    v = object.__new__(functionlib.ArtificialVariable)
    v.hashing, v.only_index_transform = False, only
    trs = [_Tr(np.asarray(S.intarr(f"indices{k}", b, 0, d - 1)) if not S.symbolic else S.intarr(f"indices{k}", b, 0, d - 1), S.arr(f"out{k}", b)) for k in range(m)]
    late = S.choose("initialized", [True, False])
    v._transforms = list(trs) if late else []
    S.patch(v, "_initialize", lambda: v._transforms.extend(trs), both=True)
    x = S.arr("x", d)
    out = v.process(x)
    S.prove("one-line-per-block", S.len(out) == m)
    S.prove("initialized-once", len(v._transforms) == m)
    for k, t in enumerate(trs):
        if only:
            S.prove("selection", S.forall(b, lambda j: S.eq(out[k][j], S.at(x, S.at(t.indices, j)))))
            S.prove("no-transform", not t.seen)
        else:
            S.prove("transformed", S.forall(b, lambda j: S.eq(out[k][j], S.at(t.out, j))))
            S.prove("given-the-data", len(t.seen) == 1 and S.forall(d, lambda j: S.eq(S.at(t.seen[0], j), S.at(x, j))))


@contract("C20", [F + "ArtificialFunction.function_from_transform"], trials=200)
def aggregation(S):
    """the core function of each block, aggregated; the penalty around zero only adds"""
    agg = S.choose("aggregator", ["max", "mean", "sum"])
    m = S.size("blocks", 1, 4) if agg == "max" else S.choose("nblocks", [1, 2, 3, 4])
    b = S.choose("block", [1, 2])
    S.assume(m >= 1)
    x = S.matrix("x", m, b) if S.symbolic else np.array([[S.real(f"x{i},{j}") for j in range(b)] for i in range(m)])
    f = object.__new__(functionlib.ArtificialFunction)
    f._func = lambda block: block[b - 1]
    f._aggregator = getattr(functionlib.np, agg)
    f.zero_pen = S.bool("zero_pen")
    f.translation_factor = S.real("factor", 0.5, 10)
    core_ = lambda i: x[i][b - 1]  # noqa
    if f.zero_pen:
        f._aggregator = lambda results: 10.0  # whatever the aggregated value
        S.prove("penalty-only-adds", S.le(10.0, f.function_from_transform(x), 1e-9))
        return
    v = f.function_from_transform(x)
    if agg == "max":
        S.prove("upper-bound", S.forall(m, lambda i: S.le(core_(i), v)))
        S.prove("attained", S.exists(m, lambda i: S.eq(core_(i), v)))
    else:
        tot = sum(core_(i) for i in range(m))
        S.prove("aggregated", S.eq(v, tot if agg == "sum" else tot / m, 1e-6))


@contract("C20", [F + "_noisy_call"], trials=200)
def noise(S):
    """no noise without level nor on the protected side; otherwise level * N(0, 1) * (f(x + N(0, 1)) - f(x)) is added"""
    d = S.choose("dim", [1, 2, 3])
    x = S.arr("x", d)
    seen, vals, draws = [], [], []

    def transf(y):
        seen.append(y)
        return S.arr(f"t{len(seen)}", d)

    def func(z):
        vals.append((z, S.real(f"f{len(vals)}")))
        return vals[-1][1]

    class Rng:
        def normal(self, loc, scale, size=None):
            r = S.real(f"n{len(draws)}") if size is None else S.arr(f"n{len(draws)}", size)
            draws.append((loc, scale, size, r))
            return r

    level = S.real("level", 0, 10)
    dis = S.bool("dissymmetry")
    v = functionlib._noisy_call(x, transf, func, level, dis, Rng())
    first = S.forall(d, lambda k: S.eq(S.at(seen[0], k), S.at(x, k)))
    S.prove("evaluated-at-x", S.land(first, vals[0][0] is not None))
    t0 = vals[0][0]
    quiet = S.lor(S.eq(level, 0, 0), S.land(dis, t0[0] > 0))
    if not draws:
        S.prove("noise-free", v == vals[0][1])
        S.prove("only-when-promised", quiet)
        S.prove("one-evaluation", len(vals) == 1 and len(seen) == 1)
    else:
        S.prove("noisy-only-when-promised", S.lnot(quiet))
        lv = level * (1.0 + t0[0] * 100.0) if dis else level
        S.prove("standard-normals", len(draws) == 2 and all(S.land(q[0] == 0, q[1] == 1) for q in draws) and draws[0][2] == d and draws[1][2] is None)
        S.prove("side-point", S.forall(d, lambda k: S.eq(S.at(seen[1], k), S.at(x, k) + S.at(draws[0][3], k))))
        S.prove("amount", S.eq(v, vals[0][1] + lv * draws[1][3] * (vals[1][1] - vals[0][1]), 1e-6))


@contract("C20", [F + "ArtificialFunction.noisy_function", F + "ArtificialFunction.evaluation_function", F + "ArtificialFunction._transform"], trials=100)
def evaluation(S):
    """the evaluation of a recommendation and the noise-free call give the core value at the transformed concatenated input"""
    na = S.choose("args", [1, 2, 3])
    args = [S.arr(f"a{k}", S.size(f"n{k}", 1, 3)) for k in range(na)]
    f = object.__new__(functionlib.ArtificialFunction)
    f._parameters = {"noise_level": 0, "noise_dissymmetry": S.bool("dissymmetry")}
    out = S.arr("out", 2)
    seen, got, val = [], [], S.real("value")

    class V:
        def process(self, x):
            seen.append(x)
            return out

    class P:
        random_state = None
    f.transform_var = V()
    f._parametrization = P()
    S.patch(f, "function_from_transform", lambda x: got.append(x) or val, both=True)
    if S.bool("recommendation"):
        class R:
            kwargs = {}
        R.args = tuple(args)
        v = f.evaluation_function(R())
    else:
        v = f.noisy_function(*args)
    S.prove("value", S.eq(v, val))
    S.prove("once", len(seen) == 1 and len(got) == 1)
    S.prove("transformed", S.forall(2, lambda k: S.eq(S.at(got[0], k), S.at(out, k))))
    off = 0
    S.prove("all-the-input", S.len(seen[0]) == sum((S.len(a) for a in args), 0))
    for a in args:
        S.prove("concatenated", S.forall(S.len(a), lambda k, off=off, a=a: S.eq(S.at(seen[0], off + k), S.at(a, k))))
        off = off + S.len(a)


@partial("C20", [B + "ArrayExperimentFunction.__init__", B + "ArrayExperimentFunction.symmetrized_function"], trials=200, bound="dimension at most 4 (any symmetry index)")
def symmetries(S):
    """symmetry s flips a set of coordinates around the middle of their bounds; different s, different sets; s = 0 flips nothing"""
    d = S.choose("dim", [1, 2, 3, 4])
    kind = S.choose("bounds", ["none", "same", "each"])
    kw = {}
    if kind == "same":
        kw = dict(lower=-1.0, upper=3.0)
    elif kind == "each":
        kw = dict(lower=np.arange(d) - 2.0, upper=2.0 * np.arange(d) + 1.0)
    param = ng.p.Array(init=np.zeros(d), **kw) if kind != "each" else ng.p.Array(init=np.arange(d) * 1.0, **kw)
    seen, val = [], S.real("value")
    s1, s2 = S.int("s1", 0, 2**d - 1), S.int("s2", 0, 2**d - 1)
    func = lambda x: seen.append(x) or val  # noqa
    f = base.ArrayExperimentFunction(func, param.set_name("").copy(), symmetry=s1)
    sl, th = list(f.slope_coefficients), list(f.threshold_coefficients)
    S.prove("flips", all(c in (1.0, -1.0) for c in sl))
    x = S.arr("x", d)
    y = None
    v = f.symmetrized_function(x) if not S.symbolic else base.ArrayExperimentFunction.symmetrized_function(f, x)
    y = seen[-1]
    S.prove("value", S.eq(v, val))
    lo, hi = [None] * d, [None] * d
    if kind != "none":
        lo, hi = (np.broadcast_to(b, (d,)) for b in param.bounds)
    for k in range(d):
        mid2 = 0.0 if kind == "none" else float(lo[k] + hi[k])
        S.prove("image", S.eq(y[k], x[k] if sl[k] == 1.0 else mid2 - x[k]))
        if kind != "none":
            S.prove("stays-in-bounds", S.implies(S.land(x[k] >= lo[k], x[k] <= hi[k]), S.land(S.le(lo[k], y[k]), S.le(y[k], hi[k]))))
    if not S.symbolic or kind == "none" and d <= 3:
        g = base.ArrayExperimentFunction(func, param.copy(), symmetry=s2)
        S.prove("all-different", S.iff(s1 == s2, sl == list(g.slope_coefficients)))
    S.prove("identity", S.implies(s1 == 0, all(c == 1.0 for c in sl)))


@contract("C20", [B + "MultiExperiment._multi_func"], trials=50)
def multi(S):
    """one objective per experiment, in order, with the same arguments"""
    n = S.choose("n", [1, 2, 3])
    vals = [S.real(f"v{k}") for k in range(n)]
    seen = []

    def exp(k):
        return lambda *a, **kw: seen.append((k, a, kw)) or vals[k]
    m = object.__new__(base.MultiExperiment)
    m._experiments = [exp(k) for k in range(n)]
    a = S.real("a")
    out = m._multi_func(a, b=12)
    S.prove("values", S.land(S.len(out) == n, *[S.eq(out[k], vals[k]) for k in range(n)]))
    S.prove("arguments", [q[0] for q in seen] == list(range(n)) and all(q[1][0] is a and len(q[1]) == 1 and q[2] == {"b": 12} for q in seen))


@contract("C20", [F + "FarOptimumFunction._multifunc", F + "FarOptimumFunction._monofunc", F + "FarOptimumFunction.evaluation_function"], trials=100)
def far_optimum(S):
    """norm-1 distance to the optimum; the evaluation of a front is its best member"""
    f = object.__new__(functionlib.FarOptimumFunction)
    f._optimum = S.arr("optimum", 2)
    x, o = S.arr("x", 2), f._optimum
    v = f._monofunc(x)
    S.prove("distance", S.eq(v, S.abs(x[0] - o[0]) + S.abs(x[1] - o[1])))
    w = f._multifunc(x)
    S.prove("objectives", S.land(S.eq(w[0], S.abs(x[0] - o[0])), S.eq(w[1], S.abs(x[1] - o[1]))))

    class R:
        def __init__(self, y):
            self.args = (y,)
    z = S.arr("z", 2)
    e = f.evaluation_function(R(x), R(z))
    S.prove("best", S.land(S.le(e, v), S.le(e, f._monofunc(z)), S.lor(S.eq(e, v), S.eq(e, f._monofunc(z)))))


# ------------------------------------------------------------------------------------- on the public API
class _Par:
    """a parametrization, of which only the flags and the name are seen"""

    FLAGS = ["has_constraints", "enforce_determinism", "real_world", "hptuning", "neural"]

    def __init__(self, S, name, tag, dimension):
        self.name, self.dimension, self.log = name, dimension, []
        for x in self.FLAGS:
            setattr(self, x, S.int(f"{tag}_{x}", 0, 1) if S.symbolic else S.choose(f"{tag}_{x}", [0, 1]))
        self._constraint_checkers = [tag]
        self.S, self.tag = S, tag
        self.random_state = tag

    def copy(self):
        self.log.append("copy")
        out = _Par(self.S, self.name, self.tag + "_c", self.dimension)
        out.source = self
        return out

    def freeze(self):
        self.log.append("freeze")

    def _set_random_state(self, rs):
        self.log.append(("random_state", rs))


@contract("C20", [B + "ExperimentFunction.copy", B + "ExperimentFunction.equivalent_to", B + "ExperimentFunction.descriptors", B + "ExperimentFunction.add_descriptors",
                  B + "ExperimentFunction._internal_copy", B + "_reset_copy"], trials=200)
def function_copy(S):
    """whatever the flags and the descriptors: the copy is a new function, made with the same arguments (parametrizations are copied, with a new random state), with the
    parametrization of the original when it was replaced by another one, its flags, constraints and bounds, and the descriptors added since; otherwise the copy is refused"""
    dim = S.int("dimension", 1, 9)
    override = S.choose("override", [False, True])
    added = S.choose("added", [False, True])
    changed = S.choose("changed", [False, True])
    value, other = S.int("value"), S.int("other")
    made = []

    class T(base.ExperimentFunction):
        def __init__(self, par, value):
            made.append((self, par, value))
            self.multiobjective_upper_bounds = None
            self.parametrization = par

    if S.symbolic:
        def plain(cls, par, value):  # (the recording of the arguments by __new__ is a contract of the standard library's signatures: bounded contract api_functions)
            out = object.__new__(cls)
            out._auto_init = {"par": par, "value": value}
            out._descriptors = {"value": value, "function_class": "T"}
            return out

        T.__new__ = plain
        S.patch(base.p, "Parameter", _Par)
    else:
        S.patch(base.p, "Parameter", _Par, both=True)
    first = _Par(S, "name", "first", dim)
    f = T(first, value)
    if override:
        f.parametrization = _Par(S, "other name", "second", dim)
    if added:
        f.add_descriptors(extra=other)
    if changed:
        f._descriptors["value"] = other
    f.multiobjective_upper_bounds = "bounds"
    mine = f.parametrization
    try:
        c = f.copy()
    except Exception as e:
        if type(e).__name__ != "ExperimentFunctionCopyError":
            raise
        S.prove("refused-when-different", changed and S.land(value != other))
        return
    S.prove("not-different", S.implies(changed, lambda: value == other))
    S.prove("new", c is not f and type(c) is T and len(made) == 2 and c.parametrization is not mine and c.parametrization is not first)
    S.prove("same-arguments", S.land(made[1][2] == value, made[1][1].source is first))
    S.prove("new-random-state", ("random_state", None) in made[1][1].log and ("random_state", None) in c.parametrization.log and "freeze" in c.parametrization.log)
    S.prove("parametrization", c.parametrization.source is mine and c.parametrization.name == mine.name)
    S.prove("flags", S.land(*[getattr(c.parametrization, x) == getattr(mine, x) for x in _Par.FLAGS]))
    S.prove("constraints", c.parametrization._constraint_checkers is mine._constraint_checkers and c.multiobjective_upper_bounds == "bounds")
    S.prove("equivalent", c.equivalent_to(f) and f.equivalent_to(c))
    d, e = c.descriptors, f.descriptors
    S.prove("descriptors", sorted(d) == sorted(e) and S.land(*[d[x] == e[x] for x in d]) and ("extra" in d) == added)
    d["new"] = 3
    S.prove("descriptors-protected", "new" not in c.descriptors and "new" not in f.descriptors)


@bounded("C20", [F + "ArtificialFunction.__init__", F + "ArtificialFunction.noisy_function", B + "ExperimentFunction.copy", B + "ExperimentFunction.evaluation_function"],
         trials=300, conc_s=9, bound="random structures of at most 4 blocks of at most 4 coordinates, all core functions")
def api_functions(S):
    """value of the core function at the isometric image, optimum kept, useless variables, determinism, copies"""
    name = S.choose("core", sorted(corefuncs.registry))
    big = name.startswith(("deceptive", "buche", "bent"))
    bd = S.int("block_dimension", 2 if big else 1, 4)
    nb = S.int("num_blocks", 1, 4)
    split = S.bool("split")
    useless = 0 if split else S.int("useless", 0, 4)
    kw = dict(useless_variables=useless, rotation=S.bool("rotation"), translation_factor=S.choose("factor", [1.0, 0.0, 0.1, 10.0]),
              aggregator=S.choose("aggregator", ["max", "mean", "sum"]), split=split, bounded=S.bool("bounded"), noise_level=S.choose("noise", [0, 0, 1]),
              noise_dissymmetry=S.bool("dissymmetry"), expo=S.choose("expo", [1.0, 3.0]))
    seed = S.int("seed", 0, 10**6)

    def make():
        f = functionlib.ArtificialFunction(name, bd, nb, **kw)
        f.parametrization.random_state.seed(seed)
        return f
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(seed)
        f = make()
        S.prove("dimension", f.dimension == bd * nb + useless)
        r = np.random.RandomState(seed)
        x = r.normal(size=f.dimension) * 3
        args = [x[k * bd:(k + 1) * bd] for k in range(nb)] if split else [x]
        rec = f.parametrization.spawn_child(new_value=(tuple(args), {}) if split else x) if not kw["bounded"] else None

        def oracle(y):
            outs = []
            for t in f.transform_var._transforms:
                z = y[t.indices]
                if not corefuncs.registry.get_info(name).get("no_transform", False):
                    z = z - t.translation
                    if kw["rotation"]:
                        S.prove("orthogonal", np.allclose(t.rotation_matrix.dot(t.rotation_matrix.T), np.eye(bd), atol=1e-8))
                        z = t.rotation_matrix.dot(z)
                outs.append(corefuncs.registry[name](z))
            return {"max": np.max, "mean": np.mean, "sum": np.sum}[kw["aggregator"]](outs)

        def same(a, b):
            return a == b or np.isclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)
        random_core = name in ("st1", "st10", "st100")
        v = f.function(*args)
        ts = f.transform_var._transforms
        ix = [i for t in ts for i in t.indices]
        S.prove("blocks", len(ts) == nb and all(len(t.indices) == bd for t in ts) and ix == sorted(set(ix)) and all(0 <= i < f.dimension for i in ix))
        if split:
            S.prove("split-blocks", ix == list(range(nb * bd)))
        if kw["noise_level"] == 0 and not random_core:
            S.prove("core-at-image", same(v, oracle(x)), value=v, oracle=oracle(x))
            S.prove("deterministic", same(v, f.function(*args)) and same(v, make().function(*args)))
        if rec is not None and not random_core:
            S.prove("evaluation-is-noise-free", same(f.evaluation_function(rec), oracle(x)), value=f.evaluation_function(rec), oracle=oracle(x))
        # coordinates out of the blocks do not matter
        if useless and kw["noise_level"] == 0 and not random_core:
            y = x + 0.0
            out = [i for i in range(f.dimension) if i not in ix]
            y[out] += 7.0
            S.prove("useless-ignored", same(f.function(y), v) and len(out) == useless)
        # the optimum of the core function, moved back
        if name in SUMS and kw["noise_level"] == 0:
            y = x + 0.0
            for t in ts:
                z = np.full(bd, SUMS[name])
                y[t.indices] = (t.rotation_matrix.T.dot(z) if kw["rotation"] else z) + t.translation
            w = f.function(*([y[k * bd:(k + 1) * bd] for k in range(nb)] if split else [y]))
            S.prove("optimum-kept", abs(w) < 1e-4, value=w)
            S.prove("never-below", v > -1e-9 and w > -1e-9)
        c = f.copy()
        S.prove("copy-equivalent", c is not f and c.equivalent_to(f) and c.descriptors == f.descriptors and c.parametrization is not f.parametrization and c.dimension == f.dimension)
        S.prove("copy-not-linked", c.parametrization.random_state is not f.parametrization.random_state)


def _right(S, x, ar):
    """coordinate k is the one of the documented optimum, up to rounding"""
    return lambda k: S.land(S.at(x, k) - (k % ar) > -0.5, S.at(x, k) - (k % ar) < 0.5)


def _bits(S):
    """a point of which no coordinate is in the middle of two integers"""
    n, ar = S.size("n", 1, 9), S.size("arity", 2, 4)
    S.assume(S.land(n >= 1, ar >= 2))
    x = S.arr("x", n, -1, 4)
    if not S.symbolic and S.bool("close"):
        r = gen.rs(S)
        x = np.where(r.rand(n) < 0.8, np.arange(n) % ar + r.uniform(-0.4, 0.4, size=n), r.uniform(-1, 4, size=n))
    wrong = lambda k: S.lor(S.at(x, k) - (k % ar) < -0.5, S.at(x, k) - (k % ar) > 0.5)
    right = _right(S, x, ar)
    S.assume(S.forall(n, lambda k: S.lor(wrong(k), right(k))))
    return n, ar, x, wrong


@contract("C20", [C + "DiscreteFunction.onemax"], trials=200)
def onemax(S):
    """between 0 and the number of variables, 0 exactly at the documented optimum, in any dimension and for any arity"""
    n, ar, x, wrong = _bits(S)
    v = corefuncs.DiscreteFunction("onemax", ar).onemax(x)
    S.prove("range", S.land(0 <= v, v <= n))
    S.prove("optimum", S.implies(S.forall(n, lambda k: S.lnot(wrong(k))), lambda: v == 0))
    i = S.int("i", 0, None if S.symbolic else 8)
    S.assume(i < n)
    S.prove("one-wrong", S.implies(wrong(i), lambda: v >= 1))
    if not S.symbolic:
        S.prove("count", v == sum(bool(wrong(k)) for k in range(n)))


@contract("C20", [C + "DiscreteFunction.leadingones"], trials=200)
def leadingones(S):
    """the number of variables from the first wrong one on: 0 exactly at the documented optimum"""
    n, ar, x, wrong = _bits(S)
    v = corefuncs.DiscreteFunction("leadingones", ar).leadingones(x)
    S.prove("optimum", S.implies(S.forall(n, lambda k: S.lnot(wrong(k))), lambda: v == 0))
    i = S.int("i", 0, None if S.symbolic else 8)
    S.assume(i < n)
    S.prove("first-wrong", S.implies(S.land(wrong(i), S.forall(i, lambda k: S.lnot(wrong(k)))), lambda: v == n - i))


@contract("C20", [C + "DiscreteFunction.jump"], trials=100)
def jump(S):
    """function of the count of wrong coordinates (whose contract is that of onemax): decreasing down to the edge of the gap, deceptive in the
    gap, its only minimum at the optimum"""
    n = S.size("n", 1, 14)
    S.assume(n >= 1)
    f = corefuncs.DiscreteFunction("jump", 2)
    o, q = S.int("o", 0, None if S.symbolic else 14), S.int("q", 0, None if S.symbolic else 14)
    S.assume(S.land(o <= n, q <= n, o < q))
    x = S.arr("x", n)
    cur = []
    S.patch(f, "onemax", lambda y: cur[0], both=True)

    def at(w):
        cur[:] = [w]
        return f.jump(x)

    m = n // 4
    vo, vq = at(o), at(q)
    S.prove("only-minimum", S.implies(o == 0, lambda: vq > vo))
    S.prove("slope", S.implies(S.lor(o >= m, S.land(o == 0, m == 0)), lambda: vq == vo + (q - o)))
    S.prove("deceptive", S.implies(S.land(o > 0, q < m), lambda: S.land(vq < vo, vo > at(m))))


@bounded("C20", [C + "DiscreteFunction.onemax", C + "DiscreteFunction.leadingones", C + "DiscreteFunction.jump"], trials=300, bound="at most 12 variables and arity at most 5")
def discrete(S):
    """onemax and leadingones count; the three have their only minimum at the documented optimum"""
    n, ar = S.int("n", 1, 12), S.int("arity", 2, 5)
    r = np.random.RandomState(S.int("seed", 0, 10**6))
    opt = np.arange(n) % ar
    x = np.where(r.rand(n) < r.rand(), opt, r.randint(ar, size=n)).astype(float)
    wrong = [i for i in range(n) if x[i] != opt[i]]
    jitter = x + r.uniform(-0.4, 0.4, size=n)
    for nm in ["onemax", "leadingones", "jump"]:
        f = corefuncs.DiscreteFunction(nm, ar)
        v, best = f(x), f(opt.astype(float))
        S.prove("rounded", f(jitter) == v)
        S.prove("minimum", (v > best) if wrong else (v == best), function=nm)
        if nm == "onemax":
            S.prove("onemax", v == len(wrong))
        if nm == "leadingones":
            S.prove("leadingones", v == (n - wrong[0] if wrong else 0))
