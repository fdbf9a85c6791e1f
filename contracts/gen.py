"""random parametrizations for the bounded (concrete) contracts; everything is derived from one recorded seed"""
import warnings
import numpy as np
import nevergrad as ng

warnings.simplefilter("ignore")
METHODS = ["bouncing", "clipping", "arctan", "tanh", "gaussian"]


def _eps(lo, hi):
    return 1e-9 * max(1.0, abs(lo) if np.isfinite(lo) else 1.0, abs(hi) if np.isfinite(hi) else 1.0)


def inside(lo, hi, integer=False):
    lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)

    def check(v):
        a = np.asarray(v, float)
        if not np.all(np.isfinite(a)):
            return False
        e = 1e-9 * np.maximum(1.0, np.maximum(np.where(np.isfinite(lo_), abs(lo_), 1), np.where(np.isfinite(hi_), abs(hi_), 1)))
        ok = bool(np.all(a >= lo_ - e) and np.all(a <= hi_ + e))
        if integer:
            ok = ok and isinstance(v, (int, np.integer)) if np.ndim(v) == 0 else ok and np.issubdtype(np.asarray(v).dtype, np.integer)
        return ok

    return check


def leaf(r, kinds=None, stochastic=True):
    """(parameter, checker of a value, kind)"""
    kinds = kinds or ["scalar", "bscalar", "iscalar", "log", "array", "barray", "iarray", "choice", "choices", "trans", "transs", "utrans", "layered", "neg", "one", "angles", "mutated", "msigma"]
    k = kinds[r.randint(len(kinds))]
    lo = float(np.round(r.uniform(-20, 10), r.randint(0, 4)))
    hi = lo + float(np.round(r.choice([0.5, 3, 10, 100, 1e4]) * r.uniform(0.5, 1), 3)) + 0.01
    method = METHODS[r.randint(len(METHODS))]
    if k == "scalar":
        return ng.p.Scalar(init=float(r.normal()) * 3), inside(-np.inf, np.inf), k
    if k == "one":
        if r.rand() < 0.5:
            return ng.p.Scalar(init=lo + 1, lower=lo), inside(lo, np.inf), k
        return ng.p.Array(init=[lo, lo - 1]).set_bounds(upper=lo, method=["bouncing", "clipping"][r.randint(2)]), inside(-np.inf, lo), k
    if k == "bscalar":
        if r.rand() < 0.5:
            return ng.p.Scalar(lower=lo, upper=hi), inside(lo, hi), k
        return ng.p.Scalar(init=(lo + hi) / 2).set_bounds(lo, hi, method=method), inside(lo, hi), k
    if k == "iscalar":
        a = int(r.randint(-5, 5))
        b = a + int(r.randint(1, 12))
        return ng.p.Scalar(lower=a, upper=b).set_integer_casting(), inside(a, b, True), k
    if k == "log":
        a = float(10 ** r.uniform(-4, 1))
        b = a * float(10 ** r.uniform(0.2, 4))
        if r.rand() < 0.3:
            return ng.p.Log(init=np.sqrt(a * b), lower=a, upper=b, exponent=float(r.uniform(1.5, 5))), inside(a, b), k
        return ng.p.Log(lower=a, upper=b), inside(a, b), k
    n = int(r.randint(1, 5))
    if k == "array":
        return ng.p.Array(shape=(n, int(r.randint(1, 3)))), inside(-np.inf, np.inf), k
    if k == "msigma":
        return ng.p.Array(init=r.normal(size=n), mutable_sigma=True), inside(-np.inf, np.inf), k
    if k == "mutated":
        return ng.p.Array(init=r.normal(size=n)).set_mutation(sigma=float(r.uniform(0.1, 5))), inside(-np.inf, np.inf), k
    if k == "barray":
        if r.rand() < 0.5:
            los = lo + r.uniform(0, 3, size=n)
            his = los + r.uniform(0.5, 10, size=n)
            return ng.p.Array(init=(los + his) / 2).set_bounds(los, his, method=method), inside(los, his), k
        return ng.p.Array(init=np.ones((n,)) * (lo + hi) / 2).set_bounds(lo, hi, method=method), inside(lo, hi), k
    if k == "iarray":
        a = int(r.randint(-5, 5))
        b = a + int(r.randint(1, 12))
        return ng.p.Array(init=np.ones((n,)) * a, lower=a, upper=b).set_integer_casting(), inside(a, b, True), k
    if k == "layered":
        m, o = float(r.uniform(0.5, 3)), float(r.normal())
        return ng.p.Array(init=np.ones(n) * (lo + hi) / 2).set_bounds(lo, hi, method=method) * m + o, inside(lo * m + o, hi * m + o), k
    if k == "neg":
        return ng.ops.Int()(-ng.p.Array(init=[5.0, 6.0], lower=0, upper=10)), inside(-10, 0, True), k
    if k == "angles":
        return ng.p.Angles(shape=(n,)), inside(-np.pi, np.pi), k
    opts = [f"o{i}" for i in range(int(r.randint(2, 6)))]
    det = True if not stochastic else bool(r.rand() < 0.3)
    if k == "choice":
        return ng.p.Choice(opts, deterministic=det), (lambda v: v in opts), k
    if k == "choices":
        return ng.p.Choice(opts, repetitions=n, deterministic=det), (lambda v: len(v) == n and all(x in opts for x in v)), k
    if k == "trans":
        return ng.p.TransitionChoice(opts), (lambda v: v in opts), k
    if k == "utrans":
        return ng.p.TransitionChoice(opts, ordered=False), (lambda v: v in opts), k
    if k == "transs":
        return ng.p.TransitionChoice(opts, repetitions=n), (lambda v: len(v) == n and all(x in opts for x in v)), k
    raise ValueError(k)


def tree(r, depth=2, kinds=None, stochastic=True):
    """nested parametrization and the checker of its value"""
    if depth == 0 or r.rand() < 0.15:
        pr, ch, _ = leaf(r, kinds, stochastic)
        return pr, ch
    n = int(r.randint(1, 5))
    subs = [tree(r, depth - 1, kinds, stochastic) for _ in range(n)]
    if r.rand() < 0.3:
        c = r.choice(["txt", "other"])
        subs.append((str(c), lambda v, c=c: v == c))
    k = r.randint(3)
    if k == 0:
        names = [f"k{i}" for i in r.permutation(len(subs))]
        return ng.p.Dict(**{a: s[0] for a, s in zip(names, subs)}), (lambda v: set(v) == set(names) and all(s[1](v[a]) for a, s in zip(names, subs)))
    if k == 1:
        return ng.p.Tuple(*[s[0] for s in subs]), (lambda v: len(v) == len(subs) and all(s[1](x) for x, s in zip(v, subs)))
    m = int(r.randint(0, len(subs) + 1))
    names = [f"k{i}" for i in r.permutation(len(subs) - m)]
    ins = ng.p.Instrumentation(*[s[0] for s in subs[:m]], **{a: s[0] for a, s in zip(names, subs[m:])})
    return ins, (lambda v: len(v[0]) == m and all(s[1](x) for x, s in zip(v[0], subs)) and set(v[1]) == set(names) and all(s[1](v[1][a]) for a, s in zip(names, subs[m:])))


def rs(S, name="seed"):
    return np.random.RandomState(S.int(name, 0, 2**30))


def eqval(a, b, tol=1e-6):
    if isinstance(a, dict):
        return set(a) == set(b) and all(eqval(a[k], b[k], tol) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eqval(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, int, np.ndarray, np.number)) and not isinstance(a, bool):
        return np.shape(a) == np.shape(b) and bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol))
    return a == b
