"""C17: discrete mutations, crossovers, and the mutation layers of parameters."""
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded, partial
from ngvc.seq import Inv
from nevergrad.optimization import mutations
from nevergrad.parametrization import discretization
from nevergrad.parametrization import mutation as pmut
from contracts import gen

M = "nevergrad.optimization.mutations:Mutator."
PM = "nevergrad.parametrization.mutation:"


def _any_inv(var, value):
    """rejection loops: nothing but the drawn variable changes"""

    def make(S):
        def havoc(st):
            return {var: value(S, st)}

        return {key: Inv(lambda st, k: True, havoc=havoc, name="redraw") for key in KEYS}

    return make


def _bools(S, st):
    n = len(S.c.inputs)
    a = S.arr(f"bv{n}", S.dim)
    return a > 0


KEYS = [M + "portfolio_discrete_mutation#0", M + "discrete_mutation#0", M + "coordinatewise_mutation#0"]
_BV = _any_inv("boolean_vector", _bools)


def _rejections(S):
    d = _BV(S)
    d[M + "significantly_mutate#0"] = Inv(lambda st, k: True, havoc=lambda st: {"w": S.real(f"w{len(S.c.inputs)}")}, name="redraw")
    return d


def _classes(S, arity):
    """the discretization in classes: stubbed by an arbitrary function of the value in the symbolic run (its contract is in C06)"""
    if not S.symbolic:
        return lambda v: discretization.threshold_discretization([float(v)], arity)[0]
    from ngvc import core
    import z3

    cls = z3.Function("class_of", z3.RealSort(), z3.IntSort())
    S.patch(discretization, "threshold_discretization", _Thr(S, cls))
    return lambda v: core.SInt(cls(core.toreal(core.toz(v))))


class _Thr:
    def __init__(self, S, cls):
        self.S, self.cls = S, cls

    def __call__(self, x, arity=2):
        from ngvc import core
        f = lambda v: core.SInt(self.cls(core.toreal(core.toz(v))))
        if isinstance(x, list) and not core.issym(x):
            return [f(v) for v in x]
        return self.S.seqof(self.S.len(x), lambda k: f(self.S.at(x, k)))


class _Unlucky(np.random.RandomState):
    """all numbers are possible draws, including a long series of similar ones"""

    def unlucky(self, streak, value):
        self.streak, self.value = streak, value
        return self

    def rand(self, *shape):
        if self.streak <= 0:
            return super().rand(*shape)
        self.streak -= 1
        return np.full(shape, self.value) if shape else self.value


def _mutator(S):
    if not S.symbolic:
        r = np.random.RandomState(S.int("draws", 0, 2**30))
        if r.rand() < 0.4:
            return mutations.Mutator(_Unlucky(r.randint(2**30)).unlucky(int(r.choice([1, 2, 5, 40, 300])), float(r.choice([0.0, 1e-12, 0.5, 1 - 2.0**-53]))))
    return mutations.Mutator(S.rng_stub())


def _sig_stub(S, cls, calls):
    """contract of significantly_mutate"""
    if not S.symbolic:
        return
    from ngvc import core
    import z3

    sig = z3.Function("significant", z3.RealSort(), z3.RealSort(), z3.RealSort())
    a, b = z3.Reals("sga sgb")
    f = cls.__closure__ and [c.cell_contents for c in cls.__closure__ if isinstance(c.cell_contents, z3.FuncDeclRef)][0]
    S.c.axiom("significant", z3.ForAll([a, b], f(sig(a, b)) != f(a), patterns=[sig(a, b)]))

    def stub(v, arity):
        calls.append(arity)
        return core.SReal(sig(core.toreal(core.toz(v)), core.toreal(core.toz(S.draw("u")))))

    S.patch(mutations.Mutator, "significantly_mutate", lambda self, v, arity: stub(v, arity))


def _arity(S):
    return S.choose("arity", [2, 3, 7, 499])


@contract("C17", [M + "significantly_mutate"], trials=300, invariants=_rejections)
def significant(S):
    """the drawn value falls in another class, except when there are too many classes for this to matter"""
    arity = S.choose("arity", [2, 3, 7, 499, 500, 10000])
    v = S.real("v")
    cls = _classes(S, arity)
    w = _mutator(S).significantly_mutate(v, arity)
    if arity <= 499:
        S.prove("other-class", S.lnot(cls(w) == cls(v)))
    S.prove("number", not isinstance(w, (list, tuple)))


def _check_mutant(S, parent, out, cls, must=True):
    d = S.len(parent)
    S.prove("same-size", S.len(out) == d)
    S.prove("others-untouched", S.forall(d, lambda k: S.lor(S.at(out, k) == S.at(parent, k), S.lnot(cls(S.at(out, k)) == cls(S.at(parent, k))))))
    if must:
        S.prove("at-least-one-change", S.exists(d, lambda k: S.lnot(cls(S.at(out, k)) == cls(S.at(parent, k)))))


def _parent(S, d):
    p = S.arr("parent", d)
    return p, p.copy()


def _kept(S, p, old):
    S.prove("parent-not-modified", S.land(S.len(p) == S.len(old), S.forall(S.len(old), lambda k: S.at(p, k) == S.at(old, k))))


@contract("C17", [M + "discrete_mutation"], trials=200, invariants=_rejections)
def discrete(S):
    d, arity = S.size("d", 1, 6), _arity(S)
    S.assume(d >= 1)
    S.dim = d
    parent, old = _parent(S, d)
    cls = _classes(S, arity)
    _sig_stub(S, cls, [])
    out = _mutator(S).discrete_mutation(parent, arity)
    _check_mutant(S, old, out, cls)
    _kept(S, parent, old)


@contract("C17", [M + "portfolio_discrete_mutation"], trials=300, invariants=_rejections)
def portfolio(S):
    """any intensity: in dimension 1 a new value is drawn, otherwise at least one coordinate changes"""
    d, arity = S.size("d", 1, 6), _arity(S)
    S.assume(d >= 1)
    S.dim = d
    parent, old = _parent(S, d)
    cls = _classes(S, arity)
    _sig_stub(S, cls, [])
    kind = S.choose("kind", ["none", "given"])
    intensity = None
    if kind == "given":
        intensity = S.real("intensity", 0.3, 20)
    out = _mutator(S).portfolio_discrete_mutation(parent, intensity=intensity, arity=arity)
    S.prove("same-size", S.len(out) == d)
    if d > 1:
        _check_mutant(S, old, out, cls)
    _kept(S, parent, old)


@contract("C17", [M + "portfolio_discrete_mutation"], trials=200, invariants=_rejections)
def portfolio_rate(S):
    """each coordinate is mutated with probability intensity / dimension; without intensity it is between 1 and dimension - 1"""
    d = S.size("d", 2, 6)
    S.assume(d >= 2)
    intensity = S.choose("kind", [None, 1, 2])
    asked = []

    def rate(t):
        if intensity is not None:
            S.prove("rate", S.eq(t * d, intensity))
        else:
            S.prove("rate-in-range", S.land(S.le(1, t * d), t < 1))

    class Drawn:
        """stands for the uniform draws, checks what they are compared to"""

        def __gt__(self, t):
            rate(t)
            return S.arr(f"draw{len(S.c.inputs)}", d, -1, 1) > 0 if S.symbolic else np.zeros(int(d), dtype=bool)

        __ge__ = __gt__

        def __lt__(self, t):
            rate(t)
            return S.arr(f"draw{len(S.c.inputs)}", d, -1, 1) > 0 if S.symbolic else np.ones(int(d), dtype=bool)

        __le__ = __lt__

    class Rng:
        def randint(self, lo, hi):
            asked.append((lo, hi))
            x = S.int("drawn_intensity", 1, None if S.symbolic else int(d) - 1)
            S.assume(x < d)
            return x

        def rand(self, n):
            S.prove("one-draw-per-coordinate", n == d)
            return Drawn()

    S.dim = d
    parent, old = _parent(S, d)
    m = mutations.Mutator(Rng())
    S.patch(m, "significantly_mutate", lambda v, arity: v, both=True)
    m.portfolio_discrete_mutation(parent, intensity=intensity)
    if intensity is None:
        S.prove("range", S.land(len(asked) == 1, asked[0][0] == 1, asked[0][1] == d) if asked else False)


@contract("C17", [M + "doubledoerr_discrete_mutation"], trials=300)
def doubledoerr(S):
    """the intensity is drawn among 1 ... max_ratio * dimension with a proper distribution, decreasing"""
    d, arity = S.size("d", 1, 8), _arity(S)
    S.assume(d >= 1)
    ratio = S.real("max_ratio", 0, 1)
    S.dim = d
    parent, old = _parent(S, d)
    seen = []

    class Rng:
        def choice(self, a, p=None):
            n = S.len(a)
            S.prove("one-probability-per-value", S.len(p) == n)
            S.prove("at-least-one", n >= 1)
            S.prove("values", S.forall(n, lambda k: S.at(a, k) == k + 1))
            S.prove("positive", S.forall(n, lambda k: S.at(p, k) > 0))
            if not S.symbolic:
                S.prove("sum", abs(sum(p) - 1) < 1e-9)
                S.prove("law", all(abs(p[k] * (k + 1) ** 1.5 - p[0]) < 1e-9 for k in range(n)))
            i = S.int("pick", 0, None if S.symbolic else int(n) - 1)
            S.assume(i < n)
            return S.at(a, i)

    m = mutations.Mutator(Rng())
    S.patch(m, "portfolio_discrete_mutation", lambda par, intensity=None, arity=2: seen.append((par, intensity, arity)) or "mutant", both=True)
    out = m.doubledoerr_discrete_mutation(parent, ratio, arity)
    S.prove("delegated", out == "mutant" and len(seen) == 1 and seen[0][0] is parent and seen[0][2] == arity)
    S.prove("intensity", S.land(seen[0][1] >= 1, S.lor(seen[0][1] == 1, S.le(seen[0][1], ratio * d))))
    _kept(S, parent, old)


@contract("C17", [M + "doubledoerr_discrete_mutation"], trials=30)
def doubledoerr_ratio(S):
    """a ratio outside of [0, 1] is refused"""
    r = S.real("ratio")
    S.assume(S.lor(r < 0, r > 1))
    refused = False
    try:
        mutations.Mutator(None).doubledoerr_discrete_mutation(S.arr("parent", 5), r, 2)
    except AssertionError:
        refused = True
    S.prove("refused", refused)


@contract("C17", [M + "doerr_discrete_mutation"], trials=100)
def doerr(S):
    """small dimensions: the standard mutation; otherwise at most half of the coordinates on average"""
    d, arity = S.size("d", 1, 9), _arity(S)
    S.assume(d >= 1)
    S.dim = d
    parent, old = _parent(S, d)
    seen = []
    m = mutations.Mutator(None)
    S.patch(m, "discrete_mutation", lambda par, arity=2: seen.append(("std", par)) or "mutant", both=True)
    S.patch(m, "doubledoerr_discrete_mutation", lambda par, max_ratio=1.0, arity=2: seen.append((max_ratio, par, arity)) or "mutant", both=True)
    out = m.doerr_discrete_mutation(parent, arity)
    S.prove("one-mutation", out == "mutant" and len(seen) == 1 and seen[0][1] is parent)
    if seen[0][0] != "std":
        S.prove("half", seen[0][0] == 0.5 and seen[0][2] == arity)


@contract("C17", [M + "rls_mutation"], trials=200, invariants=_rejections)
def rls(S):
    """exactly one coordinate changes, and it changes class"""
    d, arity = S.size("d", 1, 6), _arity(S)
    S.assume(d >= 1)
    S.dim = d
    parent, old = _parent(S, d)
    cls = _classes(S, arity)
    _sig_stub(S, cls, [])
    out = _mutator(S).rls_mutation(parent, arity)
    S.prove("vector", len(getattr(out, "shape", ())) == 1)
    S.prove("same-size", S.len(out) == d)
    _kept(S, parent, old)
    if d > 1:
        ch = lambda k: S.lnot(S.at(out, k) == S.at(old, k))
        S.prove("one-change", S.exists(d, lambda k: S.lnot(cls(S.at(out, k)) == cls(S.at(old, k)))))
        S.prove("only-one", S.forall(d, lambda a: S.forall(d, lambda b: S.lor(a == b, S.lnot(S.land(ch(a), ch(b)))))))


@contract("C17", [M + "coordinatewise_mutation"], trials=200, invariants=_rejections)
def coordinatewise(S):
    """coordinates which are not selected are untouched, the selected ones are the centers of existing classes"""
    d, arity = S.size("d", 1, 6), _arity(S)
    S.assume(d >= 1)
    S.dim = d
    parent, old = _parent(S, d)
    vel = S.arr("velocity", d, 0, 200)
    centers = []
    if S.symbolic:
        from ngvc import core
        import z3
        inv = z3.Function("center", z3.RealSort(), z3.RealSort())
        low = z3.Function("center_low", z3.RealSort(), z3.BoolSort())
        _classes(S, arity)

        def stub(idx, arity=2):
            n = S.len(idx)
            centers.append(arity)
            S.prove("classes-exist", S.forall(n, lambda k: S.land(S.at(idx, k) >= 0, S.at(idx, k) <= arity - 1)))
            return S.array(S.seqof(n, lambda k: core.SReal(inv(core.toreal(core.toz(S.at(idx, k)))))))

        S.patch(discretization, "inverse_threshold_discretization", stub)
    sel = S.arr("sel", d, 0, 1) > 0.5
    out = _mutator(S).coordinatewise_mutation(parent, vel, sel, arity)
    S.prove("same-size", S.len(out) == d)
    _kept(S, parent, old)
    if S.symbolic:
        S.prove("arity", all(a == arity for a in centers) and len(centers) == 1)
    else:
        out = np.asarray(out)
        S.prove("finite", np.all(np.abs(out) < 1e300))
        ch = np.flatnonzero(out != old)
        S.prove("inside", all(abs(float(out[k])) <= abs(discretization.inverse_threshold_discretization([0], arity=arity)[0]) + 1e-9 for k in ch))


@bounded("C17", [M + "coordinatewise_mutation", M + "portfolio_discrete_mutation", M + "discrete_mutation"], trials=40, bound="120 mutations per case, frequencies with a wide margin")
def frequencies(S):
    """mutation frequencies: every coordinate is reachable, about one (or intensity) coordinates change"""
    r = np.random.RandomState(S.int("seed", 0, 2**30))
    d, arity = S.choose("d", [6, 9]), _arity(S)
    kind = S.choose("kind", ["coordinatewise", "discrete", "portfolio1", "portfolio3"])
    m = mutations.Mutator(r)
    hits = np.zeros(d)
    for _ in range(120):
        parent = r.normal(size=d)
        if kind == "coordinatewise":
            out = m.coordinatewise_mutation(parent, np.ones(d), np.ones(d, dtype=bool), arity)
        elif kind == "discrete":
            out = m.discrete_mutation(parent, arity)
        else:
            out = m.portfolio_discrete_mutation(parent, intensity=int(kind[-1]), arity=arity)
        hits += np.asarray(out) != parent
    S.prove("every-coordinate", np.all(hits > 0))
    mean = hits.sum() / 120
    e = 3 if kind == "portfolio3" else 1
    S.prove("about-the-promised-number", 0.7 * e <= mean <= 2.2 * e)


# --------------------------------------------------------------------------- crossovers
def _mix(S, d, rotation, kind, rng=None):
    """the mix of the two parents before the mutation: all values of the parent are negative and all the ones of the donor positive"""
    parent, donor = S.arr("parent", d, -10, -1), S.arr("donor", d, 1, 10)
    old, oldd = parent.copy(), donor.copy()
    seen = []
    m = mutations.Mutator(rng or S.rng_stub())
    S.patch(m, "discrete_mutation", lambda x, *a, **k: seen.append(x) or "mutant", both=True)
    out = m.crossover(parent, donor, rotation=rotation, crossover_type=kind)
    S.prove("then-mutated", out == "mutant" and len(seen) == 1)
    S.prove("same-size", S.len(seen[0]) == d)
    _kept(S, parent, old)
    _kept(S, donor, oldd)
    return old, oldd, seen[0]


def _cut_inv(S):
    def havoc(st):
        S.cuts.append(S.int(f"cut{len(S.c.inputs)}", 0))
        return {"idx2": S.cuts[-1] + 0.5}

    S.cuts = []
    return {M + "crossover#0": Inv(lambda st, k: st["idx2"] < S.dim - 1, havoc=havoc, name="redraw")}


@contract("C17", [M + "crossover"], trials=300, invariants=_cut_inv)
def crossover_positions(S):
    """each coordinate comes from one of the parents, at the same position (from one fixed shift of the donor for rotations)"""
    d = S.size("d", 1, 9)
    rot = S.choose("rotation", [False, True])
    S.assume(d >= (2 if rot else 1))
    kind = S.choose("kind", ["none", "rand", "max", "min", "onepoint", "twopoint"]) if not rot else "none"
    S.dim = d
    p, q, mix = _mix(S, d, rot, kind)
    if rot:
        S.prove("one-shift", S.exists(d, lambda j: S.land(j >= 1, S.forall(d, lambda k: S.lor(S.at(mix, k) == S.at(p, k), S.at(mix, k) == S.at(q, (k + j) % d))))))
    else:
        S.prove("same-position", S.forall(d, lambda k: S.lor(S.at(mix, k) == S.at(p, k), S.at(mix, k) == S.at(q, k))))
    if kind in ("max", "min"):
        S.prove("uniform-choice", S.lor(S.forall(d, lambda k: S.at(mix, k) == S.at(p, k)), S.forall(d, lambda k: S.at(mix, k) == S.at(q, k))))


class _Recorded:
    """records the integers drawn (witnesses)"""

    def __init__(self, S, rng):
        self.S, self.rng = S, rng

    def __getattr__(self, n):
        return getattr(self.rng, n)

    def randint(self, *a, **k):
        r = self.rng.randint(*a, **k)
        if self.S.symbolic:
            self.S.cuts.append(r)
        return r


@contract("C17", [M + "crossover"], trials=300, invariants=_cut_inv)
def crossover_points(S):
    """a point crossover takes contiguous segments"""
    d = S.size("d", 7, 12)
    kind = S.choose("kind", ["onepoint", "twopoint"])
    S.assume(d >= (5 if kind == "onepoint" else 7))
    S.dim = d
    p, q, mix = _mix(S, d, False, kind, _Recorded(S, S.rng_stub()))
    pos = lambda k: S.at(mix, k) > 0
    if kind == "onepoint":
        S.prove("one-cut", S.forall(d, lambda a: S.forall(d, lambda b: S.forall(d, lambda c: S.implies(S.land(a < b, b < c, S.iff(pos(a), pos(c))), lambda: S.iff(pos(a), pos(b)))))))
        S.prove("both-parents", S.land(S.lnot(S.iff(pos(0), pos(d - 1)))))
    else:
        S.prove("two-cuts", S.forall(d, lambda a: S.forall(d, lambda b: S.forall(d, lambda c: S.forall(d, lambda e: S.implies(
            S.land(a < b, b < c, c < e, S.iff(pos(a), pos(c)), S.iff(pos(b), pos(e))), lambda: S.iff(pos(a), pos(b))))))))
        S.prove("middle-segment", S.iff(pos(0), pos(d - 1)))
        other = lambda k: S.lnot(S.iff(pos(k), pos(0)))
        if S.symbolic:
            S.prove("both-parents", S.lor(*[S.land(c + 1 < d, other(c + 1)) for c in S.cuts]))
        else:
            S.prove("both-parents", S.exists(d, other))


# --------------------------------------------------------------------------- mutation layers of the parameters
class _P:
    def __init__(self, v):
        self.value = v


class _Root:
    def __init__(self, value=None, **params):
        self.value = self._value = value
        self.parameters = {k: _P(v) for k, v in params.items()}
        self.bounds = (None, None)


class _Cr(pmut.Crossover):
    random_state = None


class _Rc(pmut.RavelCrossover):
    random_state = None


class _Tr(pmut.Translation):
    random_state = None


class _Ju(pmut.Jumping):
    random_state = None


class _Lg(pmut.LocalGaussian):
    random_state = None


def _layer(S, cls, root, rng=None):
    s = object.__new__(cls)
    s.random_state = rng or S.rng_stub()
    S.patch(s, "root", lambda: root, both=True)
    return s


@contract("C17", [PM + "_make_slices"], trials=200)
def slices(S):
    """one segment of the given size inside of each selected axis, everything on the others; axes of size 1 are refused"""
    nd = S.choose("nd", [1, 2, 3])
    shape = tuple(S.size(f"s{k}", 1, 6) for k in range(nd))
    axes = S.choose("axes", [(0,), (0, 1), (1,), (0, 2), (2,)])
    S.assume(S.land(*[s >= 1 for s in shape]))
    sel = [a for a in range(nd) if a in axes]
    size = S.size("size", 1, 6)
    S.assume(S.land(size >= 1, *[S.lor(shape[a] <= 1, size < shape[a]) for a in sel]))
    refused = False
    try:
        out = pmut._make_slices(shape, axes, size, S.rng_stub())
    except ValueError:
        refused = True
    S.prove("refused-exactly-on-size-one", S.iff(refused, S.lor(False, *[shape[a] <= 1 for a in sel])))
    if not refused:
        S.prove("one-slice-per-axis", len(out) == nd)
        for a in range(nd):
            if a in sel:
                S.prove("segment", S.land(out[a].start >= 0, out[a].stop == out[a].start + size, out[a].stop <= shape[a], out[a].step is None))
            else:
                S.prove("whole", out[a] == slice(None))


@contract("C17", [PM + "Crossover._apply_array", PM + "RavelCrossover._apply_array", PM + "_make_slices"], trials=300)
def crossover_line(S):
    """arrays of one dimension: a segment, neither empty nor everything, comes from the second array, the rest from the first one"""
    n = S.size("n", 2, 9)
    S.assume(n >= 2)
    a, b = S.arr("first", n, -9, -1), S.arr("second", n, 1, 9)
    olda, oldb = a.copy(), b.copy()
    known = S.choose("known", [True, False])
    mx = S.size("max", 1, 9) if known else None
    if known:
        S.assume(mx >= 1)
    rec = []
    rng = S.rng_stub()

    class Rng:
        def randint(self, *args):
            rec.append(rng.randint(*args))
            return rec[-1]

    s = _layer(S, _Cr, _Root(max_size=mx, axis=None if S.choose("axis", [True, False]) else (0,), fft=False), Rng())
    out = s._apply_array([a, b])
    S.prove("shape", S.len(out) == n)
    S.prove("same-position", S.forall(n, lambda k: S.lor(S.at(out, k) == S.at(olda, k), S.at(out, k) == S.at(oldb, k))))
    pos = lambda k: S.at(out, k) > 0
    S.prove("segment", S.forall(n, lambda i: S.forall(n, lambda j: S.forall(n, lambda k: S.implies(S.land(i < j, j < k, pos(i), pos(k)), lambda: pos(j))))))
    S.prove("not-only-second", S.exists(n, lambda k: S.lnot(pos(k))))
    if S.symbolic:
        S.prove("not-empty", pos(rec[-1]))
        size = rec[0] if len(rec) == 2 else 1
        if known:
            S.prove("max-size", size <= mx)
        else:
            S.prove("max-size", 2 * size <= n + 1)
        S.prove("size", S.forall(n, lambda k: S.iff(pos(k), S.land(rec[-1] <= k, k < rec[-1] + size))))
    else:
        S.prove("not-empty", S.exists(n, pos))
        S.prove("max-size", sum(bool(pos(k)) for k in range(n)) <= (mx if known else (n + 1) / 2))
    S.prove("inputs-not-modified", S.forall(n, lambda k: S.land(S.at(a, k) == S.at(olda, k), S.at(b, k) == S.at(oldb, k))))


@contract("C17", [PM + "Crossover._apply_array"], trials=60)
def crossover_arity(S):
    """exactly two parents"""
    k = S.choose("k", [1, 3])
    s = _layer(S, _Cr, _Root(max_size=2, axis=None, fft=False))
    refused = False
    try:
        s._apply_array([S.arr(f"a{i}", 3) for i in range(k)])
    except Exception as e:
        refused = "2 individuals" in str(e)
    S.prove("refused", refused)


@contract("C17", [PM + "Crossover._apply_array", PM + "_make_slices"], trials=200)
def crossover_plane(S):
    """arrays of two dimensions: a block (or a band, for one axis) comes from the second array"""
    n, m = S.size("n", 2, 6), S.size("m", 2, 6)
    S.assume(S.land(n >= 2, m >= 2))
    a, b = (S.matrix("first", n, m, -9, -1), S.matrix("second", n, m, 1, 9)) if S.symbolic else (-np.random.rand(n, m) - 1, np.random.rand(n, m) + 1)
    axis = S.choose("axis", [None, (0,), (1,), (0, 1)])
    mx = S.size("max", 1, 6)
    S.assume(mx >= 1)
    s = _layer(S, _Cr, _Root(max_size=mx, axis=axis, fft=False))
    out = s._apply_array([a, b])
    S.prove("shape", S.land(len(out.shape) == 2, out.shape[0] == n, out.shape[1] == m))
    pos = lambda i, j: out[i, j] > 0
    S.prove("same-position", S.forall(n, lambda i: S.forall(m, lambda j: S.lor(out[i, j] == a[i, j], out[i, j] == b[i, j]))))
    if axis == (0,):
        S.prove("band", S.forall(n, lambda i: S.forall(m, lambda j: S.iff(pos(i, j), pos(i, 0)))))
        S.prove("not-everything", S.exists(n, lambda i: S.lnot(pos(i, 0))))
    elif axis == (1,):
        S.prove("band", S.forall(n, lambda i: S.forall(m, lambda j: S.iff(pos(i, j), pos(0, j)))))
        S.prove("not-everything", S.exists(m, lambda i: S.lnot(pos(0, i))))
    else:
        S.prove("block", S.forall(n, lambda i: S.forall(m, lambda j: S.forall(n, lambda k: S.forall(m, lambda l: S.implies(S.land(pos(i, j), pos(k, l)), lambda: pos(i, l)))))))


@contract("C17", [PM + "Translation._apply_array", PM + "Translation._layered_mutate"], trials=200)
def translation(S):
    """a rotation of the array along the axis"""
    n = S.size("n", 1, 7)
    S.assume(n >= 1)
    v = S.arr("v", n)
    old = v.copy()
    rec = []
    rng = S.rng_stub()

    class Rng:
        def randint(self, *args):
            rec.append(rng.randint(*args))
            return rec[-1]

    root = _Root(v, axes=S.choose("axes", [None, (0,)]))
    s = _layer(S, _Tr, root, Rng())
    s._layered_mutate()
    out = root._value
    S.prove("shape", S.len(out) == n)
    S.prove("one-draw", len(rec) == 1)
    S.prove("rotated", S.forall(n, lambda k: S.at(out, (k + rec[0]) % n) == S.at(old, k)))
    S.prove("not-in-place", S.forall(n, lambda k: S.at(v, k) == S.at(old, k)))


@contract("C17", [PM + "Jumping._apply_array", PM + "Jumping._layered_mutate", PM + "AxisSlicedArray.__getitem__"], trials=300)
def jumping(S):
    """a segment moves somewhere else, the order of the remaining elements is kept"""
    n = S.size("n", 2, 9)
    mx = S.size("max", 2, 9)
    S.assume(S.land(n >= 2, mx >= 2, mx <= n))
    v = S.arr("v", n)
    old = v.copy()
    rec = []
    rng = S.rng_stub()

    class Rng:
        def randint(self, *args):
            rec.append(rng.randint(*args))
            return rec[-1]

    root = _Root(v, axis=0, size=mx)
    s = _layer(S, _Ju, root, Rng())
    s._layered_mutate()
    out = root._value
    S.prove("shape", S.len(out) == n)
    if S.symbolic:
        size, init, new = rec
        c = S.ite(init + size <= n, size, n - init)
        rem = lambda k: S.ite(k < init, k, k + c)
        src = lambda k: S.ite(k < new, rem(k), S.ite(k < new + c, init + k - new, rem(k - c)))
        S.prove("segment-moved", S.forall(n, lambda k: S.at(out, k) == S.at(old, src(k))))
    else:
        S.prove("same-elements", sorted(out.tolist()) == sorted(old.tolist()))
    S.prove("not-in-place", S.forall(n, lambda k: S.at(v, k) == S.at(old, k)))


@contract("C17", [PM + "LocalGaussian._layered_mutate", PM + "_make_slices"], trials=200)
def local_gaussian(S):
    """standardized steps only inside of the segment"""
    n = S.size("n", 2, 9)
    size = S.size("size", 1, 8)
    S.assume(S.land(size >= 1, size < n))
    v = S.arr("v", n)
    got = []
    root = _Root(v, axes=S.choose("axes", [None, (0,)]), size=size)
    root._internal_set_standardized_data = lambda data, reference: got.append((data, reference))
    s = _layer(S, _Lg, root)
    s._layered_mutate()
    S.prove("once", len(got) == 1 and got[0][1] is root)
    d = got[0][0]
    S.prove("size", S.len(d) == n)
    nz = lambda k: S.lnot(S.at(d, k) == 0)
    S.prove("inside-a-segment", S.forall(n, lambda i: S.forall(n, lambda j: S.implies(S.land(nz(i), nz(j)), lambda: S.land(i - j < size, j - i < size)))))


class _Mc(pmut.MutationChoice):
    random_state = None


@contract("C17", [PM + "MutationChoice._select", PM + "MutationChoice._layered_mutate", PM + "MutationChoice._layered_recombine"], trials=60)
def mutation_choice(S):
    """exactly the selected mutation is applied"""
    calls = []

    class Lay:
        def __init__(self, uid):
            self.uid = uid

        def _layered_mutate(self):
            calls.append((self.uid, "mutate"))

        def _layered_recombine(self, *o):
            calls.append((self.uid, "recombine", o))

    sel = S.choose("selected", ["a", "b", "c", "#ROOT#"])
    root = Lay("root")
    root.parameters = {"mutation_choice": _P(sel)}
    s = object.__new__(_Mc)
    s._layers = [root, Lay("a"), Lay("b"), s, Lay("c")]
    s.uid = "self"
    S.patch(s, "root", lambda: root, both=True)
    exp = "root" if sel == "#ROOT#" else sel
    s._layered_mutate()
    S.prove("selected-mutation", calls == [(exp, "mutate")])
    del calls[:]
    s._layered_recombine("x", "y")
    S.prove("selected-recombination", calls == [(exp, "recombine", ("x", "y"))])


@contract("C17", [PM + "Crossover._layered_recombine"], trials=100)
def crossover_layer(S):
    """the parents are given in order, the result becomes the value, clipped to the bounds after a Fourier transform"""
    fft = S.choose("fft", [False, True])
    bounded_ = S.choose("bounds", [False, True])
    lo = S.real("lo", -5, 5)
    wi = S.real("width", 0.1, 5)
    n = S.size("n", 1, 4)
    res = S.arr("result", n)
    r0, r1 = S.arr("v0", n), S.arr("v1", n)
    root = _Root(r0, fft=fft)
    if bounded_:
        root.bounds = (S.array([lo]), S.array([lo + wi]))
    seen = []
    s = _layer(S, _Cr, root)
    S.patch(s, "_apply_array", lambda arrays: seen.append(arrays) or res, both=True)
    s._layered_recombine(_P(r1))
    S.prove("parents", len(seen) == 1 and len(seen[0]) == 2 and seen[0][0] is r0 and seen[0][1] is r1)
    v = root.value
    if fft and bounded_:
        S.prove("inside", S.forall(n, lambda k: S.land(S.at(v, k) >= lo, S.at(v, k) <= lo + wi, S.implies(S.land(S.at(res, k) >= lo, S.at(res, k) <= lo + wi), lambda: S.at(v, k) == S.at(res, k)))))
    else:
        S.prove("value", S.forall(n, lambda k: S.at(v, k) == S.at(res, k)))


@contract("C17", [M + "get_roulette"], trials=150)
def roulette_selection(S):
    """archives of any size: as many different points as asked (by default the rounded-up root of their number, never more than there are) are drawn among the sorted keys, and the one
    with the best pessimistic bound among those is given"""
    n = S.size("n", 1, 12)
    S.assume(n >= 1)
    given = S.choose("given", [True, False])
    num = (S.int("num", 1) if S.symbolic else S.int("num", 1, 20)) if given else None
    vals = S.arr("bound", n, -3, 3)
    if S.symbolic:
        pick = []

        class Info:
            def __init__(self, k):
                self.pessimistic_confidence_bound = S.at(vals, k)

        keys = S.seqof(n, lambda i: ("key", i))
        view = object()

        def ranked(x, **kw):
            S.prove("sorted-keys", (x is view or isinstance(x, Dict)) and not kw)
            return keys

        class Dict:
            def keys(self):
                return view

            def __iter__(self):
                return iter(view)

            def __getitem__(self, x):
                return Info(where(x))

        where = lambda x: x[1]
        S.patch(mutations, "sorted", ranked)  # (trusted: the i-th of the sorted keys is called the i-th key)

        class Arch:
            bytesdict = Dict()

            def _ngvc_len(self):
                return n

        class R:
            def choice(self, total, size, replace=True):
                S.prove("among-all", total == n)
                S.prove("different", replace is False)
                S.prove("as-many", S.land(size >= 1, size <= n))
                ids = S.ints("drawn", size, 0, None)
                S.assume(S.forall(size, lambda i: S.land(ids[i] >= 0, ids[i] < n)))
                pick.append((size, ids))
                return ids

        S.patch(mutations.np, "frombuffer", lambda x: ("point", x))
        m = object.__new__(mutations.Mutator)
        m.random_state = R()
        out = m.get_roulette(Arch(), num)
        size, ids = pick[0]
        S.prove("once", len(pick) == 1)
        k = where(out[1])
        S.prove("drawn-point", S.land(out[0] == "point", S.exists(size, lambda i: ids[i] == k)))
        S.prove("best", S.forall(size, lambda i: S.at(vals, k) <= S.at(vals, ids[i])))
        if given:
            S.prove("number", size == S.ite(num <= n, num, n))
        else:
            root = mutations.np.sqrt(n)
            S.prove("root-of-the-number", S.land(size - 0.9991 <= root, S.lor(size == n, size + 0.0011 > root)))
        return
    from nevergrad.optimization import utils

    arch = utils.Archive()
    for k in range(n):
        v = utils.MultiValue(ng.p.Scalar(), float(vals[k]), reference=ng.p.Scalar())
        arch[np.array([float(k)])] = v
    draws = []

    class R:
        def choice(self, total, size, replace):
            draws.append(np.random.RandomState(S.int("seed", 0, 9999)).choice(total, size=size, replace=replace))
            return draws[-1]

    out = mutations.Mutator(R()).get_roulette(arch, num)
    keys = sorted(arch.bytesdict)
    size = min(n, num if given else int(0.999 + np.sqrt(n)))
    S.prove("number", len(draws) == 1 and len(set(draws[0].tolist())) == size)
    drawn = [np.frombuffer(keys[i]) for i in draws[0]]
    S.prove("drawn-point", any(np.array_equal(out, x) for x in drawn))
    S.prove("best", all(vals[int(out[0])] <= vals[int(x[0])] for x in drawn))


@contract("C17", [PM + "Cauchy._layered_mutate", PM + "DataMutation._on_layer_added"], trials=100)
def cauchy_layer(S):
    """any dimension: the mutated parameter is set from standardized data drawn once, of its own dimension, from its own generator; the parameters of a mutation are added to the
    parameter when the layer is added, once, and never replace those it already has"""
    d = S.size("d", 0, 6)
    log = []
    draws = S.arr("draws", d)

    class R:
        def standard_cauchy(self, size=None):
            S.prove("dimension", size == d)
            log.append("drawn")
            return draws

    class Root:
        random_state = R()
        dimension = d
        parameters = {}

        def set_standardized_data(self, x):
            S.prove("draws", x is draws)
            log.append("set")

    root = Root()
    layer = pmut.Cauchy()
    S.patch(layer, "root", lambda: root, both=True)
    layer._layered_mutate()
    S.prove("once", log == ["drawn", "set"])

    has = {x: S.choose("has_" + x, [False, True]) for x in ("a", "b")}
    gives = {x: S.choose("gives_" + x, [False, True]) for x in ("a", "b")}
    old = {x: object() for x in ("a", "b")}
    new = {x: ng.p.Scalar() if x == "a" else 12 for x in ("a", "b")}
    root.parameters = {x: old[x] for x in old if has[x]}
    layer = pmut.DataMutation(**{x: new[x] for x in new if gives[x]})
    S.patch(layer, "root", lambda: root, both=True)
    layer._on_layer_added()
    S.prove("names", set(root.parameters) == {x for x in old if has[x] or gives[x]})
    for x in root.parameters:
        if has[x]:
            S.prove("kept", root.parameters[x] is old[x])
        else:
            v = root.parameters[x]
            S.prove("added", v is new["a"] if x == "a" else (isinstance(v, ng.p.Constant) and v.value == 12))
    root.parameters = {}
    layer._on_layer_added()
    S.prove("added-once", root.parameters == {})


@bounded("C17", [M + "get_roulette"], trials=150, bound="archives of at most 30 points")
def roulette(S):
    """the best pessimistic point of a random subset of the archive: the best one when the subset is everything"""
    from nevergrad.optimization import utils

    r = np.random.RandomState(S.int("seed", 0, 2**30))
    n = int(r.randint(1, 31))
    arch = utils.Archive()
    pts = r.normal(size=(n, 3))
    for x in pts:
        arch[x] = utils.MultiValue(ng.p.Scalar(), float(np.round(r.normal(), 1)), reference=ng.p.Scalar())
    num = None if r.rand() < 0.3 else int(r.randint(1, 40))
    size = min(n, num if num is not None else int(0.999 + np.sqrt(n)))
    out = mutations.Mutator(r).get_roulette(arch, num)
    S.prove("member", any((out == x).all() for x in pts))
    worse = sum(arch[x].pessimistic_confidence_bound >= arch[out].pessimistic_confidence_bound for x in pts)
    S.prove("best-of-the-subset", worse >= size)


@bounded("C17", [PM + "Crossover._apply_array", PM + "RavelCrossover._apply_array", PM + "Jumping._apply_array", PM + "Translation._apply_array",
                 PM + "Cauchy._layered_mutate", PM + "LocalGaussian._layered_mutate", PM + "MutationChoice._layered_mutate", PM + "DataMutation._on_layer_added"], trials=300,
         bound="arrays of at most 3 dimensions of size at most 5")
def api_layers(S):
    """the layers on real parameters"""
    r = gen.rs(S)
    nd = int(r.randint(1, 4))
    shape = tuple(int(x) for x in r.randint(2, 6, size=nd))
    ax = int(r.randint(nd))
    kind = ["cross", "ravel", "translation", "jump", "gauss", "choice", "cauchy"][r.randint(7)]
    mk = {
        "cross": lambda: pmut.Crossover(axis=None if r.rand() < 0.4 else ax, max_size=None if r.rand() < 0.5 else int(r.randint(1, 4))),
        "ravel": lambda: pmut.RavelCrossover(max_size=None if r.rand() < 0.5 else int(r.randint(1, 4))),
        "translation": lambda: pmut.Translation(axis=None if r.rand() < 0.4 else ax),
        "jump": lambda: pmut.Jumping(axis=ax, size=2),
        "gauss": lambda: pmut.LocalGaussian(size=1, axes=None if r.rand() < 0.4 else ax),
        "choice": lambda: pmut.MutationChoice([pmut.Translation(axis=ax), pmut.Jumping(axis=ax, size=2)], with_default=False),
        "cauchy": lambda: pmut.Cauchy(),
    }[kind]()
    par = mk(ng.p.Array(init=r.normal(size=shape)))
    par.random_state.seed(int(r.randint(2**31)))
    v0 = par.value.copy()
    a, b = par.spawn_child(), par.spawn_child()
    b.value = r.normal(size=shape)
    va, vb = a.value.copy(), b.value.copy()
    S.prove("children", bool((va == v0).all()))
    if kind in ("cross", "ravel"):
        a.recombine(b)
        v = a.value
        S.prove("from-both", bool(((v == va) | (v == vb)).all()) and not (v == vb).all() and not (v == va).all())
        S.prove("other-parent", bool((b.value == vb).all()))
    else:
        a.mutate()
        v = a.value
        if kind not in ("gauss", "cauchy") and v.size > 4 and (v == va).all():
            for _ in range(200):
                a.mutate()
                if not (a.value == va).all():
                    break
            S.prove("not-the-identity", not (a.value == va).all(), kind=kind, shape=shape)
        elif kind == "cauchy":
            S.prove("all-change", bool((v != va).all()))
        if kind in ("translation", "jump", "choice"):
            S.prove("same-elements", sorted(v.ravel().tolist()) == sorted(va.ravel().tolist()))
        elif kind == "gauss":
            S.prove("something-changed", bool((v != va).any()) and int((v != va).sum()) < v.size)
    S.prove("shape", v.shape == shape)
    S.prove("parametrization-untouched", bool((par.value == v0).all()))


@contract("C17", [PM + "rolling_mean"], trials=200)
def rolling(S):
    """the sum over the window of the (circular) vector"""
    n, w = S.size("n", 1, 7), S.size("window", 0, 9)
    S.assume(S.land(n >= 1, w >= 0))
    v = S.arr("v", n, -5, 5)
    out = pmut.rolling_mean(v, w)
    S.prove("size", S.len(out) == n)
    if w <= 1 and not w >= n:
        S.prove("no-window", S.forall(n, lambda k: S.at(out, k) == S.at(v, k)))
    elif not S.symbolic:
        S.prove("window", all(abs(out[k] - sum(v[(k + j) % n] for j in range(min(w, n)))) < 1e-9 for k in range(n)))
