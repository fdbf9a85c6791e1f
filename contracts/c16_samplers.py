"""C16: quasi-random samplers and one-shot optimizers."""
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded
from ngvc.seq import Inv
from nevergrad.optimization import oneshot, sequences
from contracts import gen

Q = "nevergrad.optimization.sequences:"
O = "nevergrad.optimization.oneshot:"


def _sampler(cls, **kw):
    s = object.__new__(cls)
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def _vdc_inv(S):
    """radical inverse R: R(0) = 0, R(n) = (permut[n mod b] + R(n div b)) / b (its definition, unfolded where needed)"""
    import z3
    from ngvc import core

    S.R = z3.Function("radical_inverse", z3.IntSort(), z3.RealSort())

    def inv(st, k):
        n, v, d, b, perm = st["n"], st["vdc"], st["denom"], st["base"], st["permut"]
        rn = core.SReal(S.R(core.toz(n)))
        c = core.ctx()
        c.add(S.R(z3.IntVal(0)) == 0)
        zn = core.toz(n)
        q, r = n // b, n % b
        c.add(z3.Implies(zn > 0, S.R(zn) * core.toreal(core.toz(b)) == core.toreal(core.toz(S.at(perm, r))) + S.R(core.toz(q))))
        return S.land(n >= 0, d >= 1, v >= 0, v * d <= d - 1, (v - S.value) * d == -rn)

    return {"nevergrad.optimization.sequences:HaltonSampler.vdc#0": Inv(inv, havoc=lambda st: {"vdc": S.real("vdc")}, measure=lambda st: st["n"], name="radical")}


def _radical(n, perm):
    b, out, f = len(perm), 0.0, 1.0
    while n:
        f /= b
        out += f * float(perm[n % b])
        n //= b
    return out


@contract("C16", [Q + "HaltonSampler.vdc"], trials=300, invariants=_vdc_inv)
def van_der_corput(S):
    """the point of index n is the radical inverse of n+1 (with permuted digits), in [0, 1): any n, any digits, any base"""
    b = S.int("base", 2) if S.symbolic else S.int("base", 2, 40)
    perm = S.ints("permut", b, 0, b - 1)
    n = S.int("n", 0, 3000) if not S.symbolic else S.int("n", 0)
    s = _sampler(sequences.HaltonSampler)
    if S.symbolic:
        from ngvc import core
        S.value = core.SReal(S.R(core.toz(n + 1)))
    else:
        S.value = _radical(n + 1, perm)
    r = s.vdc(n, perm)
    S.prove("value", S.eq(r, S.value))
    S.prove("in-unit-interval", S.land(r >= 0, r < 1))


@contract("C16", [Q + "LHSSampler._internal_sampler"], trials=200)
def lhs_point(S):
    """the point of index i lies on each axis in the stratum given by the permutation of this axis"""
    d, n = S.size("d", 1, 4), S.size("n", 1, 8)
    S.assume(S.land(d >= 1, n >= 1))
    if S.symbolic:
        perms = S.matrix("perm", d, n, 0, n - 1, integer=True)
    else:
        perms = np.array([np.random.RandomState(S.int(f"seed{k}", 0, 9999)).permutation(n) for k in range(d)])
    i = S.int("i", 0, None if S.symbolic else n - 1)
    S.assume(i < n)
    s = _sampler(sequences.LHSSampler, permutations=perms, index=i, budget=n, dimension=d, randg=S.rng_stub())
    x = s._internal_sampler()
    S.prove("dimension", S.len(x) == d)
    S.prove("stratum", S.forall(d, lambda k: S.land(S.le(perms[k, i], S.at(x, k) * n), S.le(S.at(x, k) * n, perms[k, i] + 1))))
    S.prove("unit-cube", S.forall(d, lambda k: S.land(S.at(x, k) >= 0, S.at(x, k) <= 1)))


@contract("C16", [Q + "RandomSampler._internal_sampler"], trials=100)
def random_point(S):
    d = S.size("d", 1, 4)
    s = _sampler(sequences.RandomSampler, dimension=d, random_state=S.rng_stub())
    x = s._internal_sampler()
    S.prove("dimension", S.len(x) == d)
    S.prove("unit-cube", S.forall(d, lambda k: S.land(S.at(x, k) >= 0, S.at(x, k) <= 1)))


@contract("C16", [Q + "Sampler.__call__", Q + "Sampler.reinitialize"], trials=100)
def sampler_call(S):
    """one point per call, never more than the budget, reinitialize starts again"""
    known = S.choose("budget_known", [True, False])
    b = S.int("budget", 0) if known else None
    i = S.int("index", 0)
    pts = []
    s = _sampler(sequences.Sampler, budget=b, index=i, dimension=2)
    S.patch(s, "_internal_sampler", lambda: pts.append(s.index) or "point", both=True)
    out, refused = None, False
    try:
        out = s()
    except AssertionError:
        refused = True
    S.prove("refused-exactly-over-budget", S.iff(refused, S.land(known, i >= b) if known else False))
    if refused:
        S.prove("not-counted", s.index == i and not pts)
    else:
        S.prove("one-point", out == "point" and len(pts) == 1 and pts[0] == i and s.index == i + 1)
    s.reinitialize()
    S.prove("restarts", s.index == 0)


@contract("C16", [Q + "HaltonSampler._internal_sampler", Q + "HammersleySampler._internal_sampler"], trials=100)
def halton_point(S):
    """one coordinate per digit permutation, in order; Hammersley adds the centers of the strata as first coordinate"""
    d = S.size("d", 0, 6)
    ham = S.choose("hammersley", [False, True])
    n = S.int("budget", 1)
    i = S.int("index", 0)
    S.assume(i < n)
    perms = S.seqof(d, lambda k: ("perm", k))
    vals = S.arr("vdc", d, 0, 1)

    class Gen:
        def get_permutations_generator(self):
            return perms

    def vdc(idx, sigma):
        S.prove("index", idx == i)
        S.prove("permutation", sigma[0] == "perm")
        return S.at(vals, sigma[1])

    s = _sampler(sequences.HammersleySampler if ham else sequences.HaltonSampler, budget=n, index=i, dimension=d, permgen=Gen())
    S.patch(s, "vdc", vdc, both=True)
    x = s._internal_sampler()
    o = 1 if ham else 0
    S.prove("dimension", S.len(x) == d + o)
    S.prove("coordinates", S.forall(d, lambda k: S.at(x, k + o) == S.at(vals, k)))
    if ham:
        S.prove("first", S.eq(S.at(x, 0) * n, i + 0.5))
        S.prove("inside", S.land(S.at(x, 0) > 0, S.at(x, 0) < 1))


@contract("C16", [Q + "Rescaler.apply"], trials=200)
def rescaler_apply(S):
    """any point of the rescaled sample: inside [epsilon, 1-epsilon], extreme values reached"""
    d = S.size("d", 1, 4)
    s = _sampler(sequences.Rescaler)
    lo, wi, u = S.arr("lo", d, 0, 1), S.arr("width", d, 0, 1), S.arr("u", d, 0, 1)
    S.assume(S.forall(d, lambda k: S.lor(S.at(wi, k) == 0, S.at(wi, k) > 1e-9)))
    eps = S.real("eps", 0, 1e-15)
    S.assume(S.land(eps > 0))
    S.assume(S.forall(d, lambda k: S.land(S.at(lo, k) >= eps, S.at(lo, k) + S.at(wi, k) <= 1 - eps)))
    hi = lo + wi
    x = lo + u * wi
    s.sample_mins, s.sample_maxs, s.epsilon = lo, hi, eps
    y = s.apply(x)
    S.prove("size", S.len(y) == d)
    S.prove("inside", S.forall(d, lambda k: S.land(S.le(eps, S.at(y, k)), S.le(S.at(y, k), 1 - eps))))
    S.prove("monotone", S.forall(d, lambda k: S.implies(S.at(wi, k) > 0, lambda: S.eq((S.at(y, k) - eps) * S.at(wi, k), (1 - 2 * eps) * (S.at(x, k) - S.at(lo, k))))))
    S.prove("single-value-kept", S.forall(d, lambda k: S.implies(S.at(wi, k) == 0, lambda: S.eq(S.at(y, k), S.at(x, k)))))


class _Points:
    """an iterable of any number of points"""

    def __init__(self, S, n, d, table):
        self.S, self.n, self.d, self.table, self.started = S, n, d, table, False

    def __iter__(self):
        return self

    def __next__(self):
        self.S.prove("first-point-once", not self.started)
        self.started = True
        return self.table[0, :]

    def _ngvc_iter(self):
        first = 1 if self.started else 0
        return self.S.seqof(self.n - first, lambda i: self.table[i + first, :])


def _extrema_inv(S):
    def inv(st, k):
        lo, hi = st["self"].sample_mins, st["self"].sample_maxs
        return S.land(S.len(lo) == S.d, S.len(hi) == S.d,
                      S.forall(S.d, lambda j: S.land(S.at(S.lower, j) <= S.at(lo, j), S.at(hi, j) <= S.at(S.upper, j))),
                      S.forall(S.d, lambda j: S.forall(S.n, lambda i: S.implies(i <= k, lambda: S.land(S.at(lo, j) <= S.table[i, j], S.table[i, j] <= S.at(hi, j))))))

    def havoc(st):
        m = len(S.c.inputs)
        st["self"].sample_mins, st["self"].sample_maxs = S.arr(f"mins{m}", S.d), S.arr(f"maxs{m}", S.d)
        return {}

    return {Q + "Rescaler.__init__#0": Inv(inv, havoc, name="extrema-so-far")}


@contract("C16", [Q + "Rescaler.__init__"], trials=150, invariants=_extrema_inv)
def rescaler_init(S):
    """any number of points of any dimension: the greatest lower bound and the least upper bound of each coordinate, and an epsilon which no coordinate comes closer to the border than"""
    n, d = S.size("n", 1, 5), S.size("d", 1, 4)
    S.assume(S.land(n >= 1, d >= 1))
    if S.symbolic:
        pts = S.matrix("points", n, d)
        lower, upper = S.arr("lower", d), S.arr("upper", d)
        inside = lambda x: S.land(x > 0, x < 1)
        S.assume(S.forall(d, lambda j: S.land(S.at(lower, j) > 0, S.at(upper, j) < 1)))  # (the extreme values are such bounds themselves)
        S.assume(S.forall(n, lambda i: S.forall(d, lambda j: S.land(inside(pts[i, j]), S.at(lower, j) <= pts[i, j], pts[i, j] <= S.at(upper, j)))))
        S.n, S.d, S.table, S.lower, S.upper = n, d, pts, lower, upper
        s = sequences.Rescaler(_Points(S, n, d, pts))
    else:
        pts = np.random.RandomState(S.int("seed", 0, 9999)).uniform(0.01, 0.99, size=(n, d)).round(1).clip(0.01, 0.99)
        lower, upper = pts.min(axis=0), pts.max(axis=0)
        s = sequences.Rescaler(x for x in pts)
    mins, maxs = s.sample_mins, s.sample_maxs
    S.prove("dimension", S.land(S.len(mins) == d, S.len(maxs) == d))
    S.prove("bounds", S.forall(d, lambda j: S.forall(n, lambda i: S.land(S.at(mins, j) <= pts[i, j], pts[i, j] <= S.at(maxs, j)))))
    S.prove("greatest-and-least", S.forall(d, lambda j: S.land(S.at(lower, j) <= S.at(mins, j), S.at(maxs, j) <= S.at(upper, j))))
    S.prove("epsilon", S.land(s.epsilon > 0, S.forall(d, lambda j: S.land(s.epsilon <= S.at(mins, j), s.epsilon <= 1 - S.at(maxs, j)))))


# --------------------------------------------------------------------------- one-shot optimizers
def _oneshot(S, cls, **kw):
    s = object.__new__(cls)
    for k, v in dict(opposition_mode=None, middle_point=False, scale=1.0, sampler="gaussian", _opposable_data=None, budget=None, _num_ask=3).items():
        setattr(s, k, v)
    for k, v in kw.items():
        setattr(s, k, v)
    return s


class _Rs(oneshot._RandomSearch):
    dimension = None
    _rng = None


class _Ss(oneshot._SamplingSearch):
    dimension = None
    _rng = None
    sampler = None


@contract("C16", [O + "_RandomSearch._internal_ask", O + "_SamplingSearch._internal_ask"], trials=200)
def opposition(S):
    """with an opposition mode, one point out of two is the (scaled) symmetric of the previous one, with a scale in (0, 1]"""
    d = S.size("d", 1, 4)
    mode = S.choose("mode", ["quasi", "opposite", "special"])
    cls = S.choose("cls", [_Rs, _Ss])
    prev = S.arr("previous", d)
    old = prev.copy()
    s = _oneshot(S, cls, opposition_mode=mode, _opposable_data=prev, dimension=d, _rng=S.rng_stub(), _num_ask=S.int("num_ask", 1))
    x = s._internal_ask()
    S.prove("size", S.len(x) == d)
    S.prove("used-once", s._opposable_data is None)
    if mode == "opposite":
        S.prove("symmetric", S.forall(d, lambda k: S.eq(S.at(x, k), -S.at(old, k))))
    S.prove("opposite-direction", S.forall(d, lambda k: S.le(S.at(x, k) * S.at(old, k), 0)))
    S.prove("not-further", S.forall(d, lambda k: S.le(S.abs(S.at(x, k)), S.abs(S.at(old, k)))))


@contract("C16", [O + "_RandomSearch._internal_ask", O + "_SamplingSearch._internal_ask"], trials=100)
def middle_point(S):
    """the first point is the center when it is asked for"""
    d = S.size("d", 1, 4)
    cls = S.choose("cls", [_Rs, _Ss])
    mode = S.choose("mode", [None, "opposite", "quasi"])
    s = _oneshot(S, cls, opposition_mode=mode, middle_point=True, _num_ask=0, dimension=d, _rng=S.rng_stub())
    x = s._internal_ask()
    S.prove("size", S.len(x) == d)
    S.prove("zeros", S.forall(d, lambda k: S.at(x, k) == 0))


@contract("C16", [O + "_RandomSearch._internal_ask"], trials=150)
def random_search_point(S):
    """a new draw, multiplied by the scale, and kept for the symmetric point"""
    d = S.size("d", 1, 4)
    scale = S.real("scale", 0.01, 10)
    mode = S.choose("mode", [None, "opposite"])
    draws = S.arr("draws", d)

    class R:
        def normal(self, mu, sigma, size):
            S.prove("standard", mu == 0 and sigma == 1 and size == d)
            return draws.copy()

    s = _oneshot(S, _Rs, opposition_mode=mode, scale=scale, dimension=d, _rng=R(), _num_ask=S.int("num_ask", 0))
    x = s._internal_ask()
    S.prove("scaled-draw", S.land(S.len(x) == d, S.forall(d, lambda k: S.eq(S.at(x, k), scale * S.at(draws, k)))))
    S.prove("kept", s._opposable_data is not None and S.forall(d, lambda k: S.at(s._opposable_data, k) == S.at(x, k)))


@contract("C16", [O + "_SamplingSearch.sampler"], trials=200)
def sampling_budget(S):
    """the sampler is built once, with enough points for the budget: half of them with opposition, one less with a middle point"""
    known = S.choose("budget_known", [True, False])
    b = S.int("budget", 1) if known else None
    mode = S.choose("mode", [None, "quasi", "special", "opposite"])
    mid = S.choose("middle", [False, True])
    which = S.choose("sampler", ["Halton", "Hammersley", "LHS", "Random"])
    made = []

    def fake(dim, budget, scrambling=False, random_state=None):
        made.append((dim, budget, scrambling, random_state))
        return "sampler"

    for n in ["Halton", "Hammersley", "LHS", "Random"]:
        S.patch(sequences, n + "Sampler", fake if n == which else (lambda *a, **k: S.fail("other-sampler")), both=True)

    class T(oneshot._SamplingSearch):
        dimension = 7
        _rng = "rng"

    scr = S.choose("scrambled", [False, True])
    s = _oneshot(S, T if not S.symbolic else T, opposition_mode=mode, middle_point=mid, budget=b, _sampler_instance=None, _rescaler=None, _sampler=which, rescaled=False, scrambled=scr) if False else object.__new__(T)
    for k, v in dict(opposition_mode=mode, middle_point=mid, budget=b, _sampler_instance=None, _rescaler=None, _sampler=which, rescaled=False, scrambled=scr).items():
        setattr(s, k, v)
    S.prove("made", s.sampler == "sampler" and s.sampler == "sampler")
    S.prove("once", len(made) == 1)
    dim, n, sc, rs = made[0]
    S.prove("arguments", dim == 7 and sc is scr and rs == "rng")
    if known:
        rest = b - (1 if mid else 0)
        calls = rest if mode is None else (rest + 1) // 2
        S.prove("enough-points", n == calls)
    else:
        S.prove("no-budget", n is None)


def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % q for q in out if q * q <= k):
            out.append(k)
        k += 1
    return out


class _Grid:
    """the table of the permutations: counts the rows written, in order, each with the permutation drawn last"""

    def __init__(self, S, shape):
        self.S, self.shape, self.rows = S, shape, 0

    def __setitem__(self, k, row):
        d, n = self.shape
        self.S.prove("row-in-order", self.S.land(k == self.rows, k < d))
        self.S.prove("row-drawn", row is self.S.drawn[-1] and self.S.drawn[-1].used == 0)
        row.used = 1
        self.rows = self.rows + 1


class _Perm:
    def __init__(self, size):
        self.size, self.used = size, 0


def _lhs_inv(S):
    def havoc(st):
        S.grid.rows = S.int(f"rows{len(S.c.inputs)}", 0)
        S.drawn = []
        return {}

    return {Q + "LHSSampler.__init__#0": Inv(lambda st, k: S.grid.rows == k, havoc, name="rows-drawn")}


@contract("C16", [Q + "LHSSampler.__init__", Q + "LHSSampler.reinitialize", Q + "Sampler.__init__"], trials=150, invariants=_lhs_inv)
def lhs_init(S):
    """any dimension, any budget: one new permutation of all the strata for each axis; starting again gives the same points; scrambling is refused"""
    d, n = S.size("d", 0, 6), S.size("n", 1, 8)
    S.assume(S.land(n >= 1, n < 2**53))  # (the points are computed with floats)
    scr = S.choose("scrambling", [False, False, True])
    if not S.symbolic and S.int("many", 0, 29) == 0:
        d, n = 1, S.int("large", 1000, 70000)
    if S.symbolic:
        S.drawn, streams = [], []

        class R:
            def permutation(self, m):
                S.prove("all-the-strata", m == n)
                S.drawn.append(_Perm(m))
                return S.drawn[-1]

            def randint(self, *a, **k):
                return "drawn-seed"

        def zeros(shape, dtype=None):
            S.prove("shape", S.land(shape[0] == d, shape[1] == n))
            kind = np.dtype(float if dtype is None else dtype)
            S.prove("holds-any-stratum", n - 1 <= (np.iinfo(kind).max if kind.kind in "iu" else 2**53 if kind == np.dtype(float) else 0))
            S.grid = _Grid(S, shape)
            return S.grid

        S.patch(sequences.np, "zeros", zeros)
        S.patch(sequences.np.random, "RandomState", lambda seed: streams.append(seed) or ("stream", seed))
        rs = R()
    else:
        rs = np.random.RandomState(S.int("seed", 0, 9999))
    try:
        s = sequences.LHSSampler(d, n, scrambling=scr, random_state=rs)
    except ValueError:
        S.prove("refused", scr)
        return
    S.prove("not-scrambled", not scr)
    S.prove("attributes", S.land(s.dimension == d, s.budget == n, s.index == 0, s.random_state is rs))
    if S.symbolic:
        S.prove("all-rows", S.land(s.permutations is S.grid, S.grid.rows == d))
        S.prove("stream", s.seed == "drawn-seed" and s.randg == ("stream", "drawn-seed"))
        s.index, s.randg = S.int("index", 0), "used"
        s.reinitialize()
        S.prove("starts-again", S.land(s.index == 0, s.randg == ("stream", "drawn-seed")))
    else:
        S.prove("permutations", all(sorted(row) == list(range(n)) for row in s.permutations.tolist()) and s.permutations.shape == (d, n))
        first = [s() for _ in range(n)]
        s.reinitialize()
        S.prove("starts-again", all(np.array_equal(a, s()) for a in first))


@contract("C16", [Q + "HaltonSampler.__init__", Q + "HammersleySampler.__init__", Q + "HaltonPermutationGenerator.__init__",
                  Q + "HaltonPermutationGenerator.get_permutations_generator"], trials=150)
def halton_init(S):
    """any dimension: the digits of axis k are permuted by the k-th of the permutations made for the first primes: identity, or 0 followed by a permutation of the other digits,
    drawn from the stream of a seed drawn once (the same permutations for each point); Hammersley has one axis less to permute, and needs a budget"""
    d = S.size("d", 1, 6)
    S.assume(d >= 1)
    ham = S.choose("hammersley", [False, True])
    scr = S.choose("scrambling", [False, True])
    known = S.choose("budget_known", [True, False])
    n = S.int("n", 1) if known else None
    if not S.symbolic:
        rs = np.random.RandomState(S.int("seed", 0, 9999))
    else:
        import nevergrad.optimization.sequences as sq

        m = d - 1 if ham else d
        pr = S.ints("primes", m, 2, None)
        full = []

        class Arr:
            def tolist(self):
                return pr

        class R:
            def randint(self, *a, **k):
                return "drawn-seed"

        class Digits:
            def __init__(self, top):
                self.top = top

            def __getitem__(self, sl):
                S.prove("enough-digits", S.land(sl.step is None, sl.stop <= self.top))
                return ("digits", 0 if sl.start is None else sl.start, sl.stop)

        class Stream:
            def __init__(self, seed=None):
                self.seed = seed

            def choice(self, digits, size, replace=True):
                S.prove("draw", self.seed == "drawn-seed" and replace is False)
                S.prove("all-but-zero", S.land(digits[1] == 1, size == digits[2] - 1))
                return ("shuffled", digits[2])

        def primes(num):
            S.prove("as-many-primes", num == m)
            return Arr()

        def arange(top):
            full.append(Digits(top))
            return full[-1]

        def concatenate(parts, axis=0):
            S.prove("zero-first", list(parts[0]) == [0] and axis == 0)
            return parts[1]

        S.assume(S.forall(m, lambda i: S.forall(m, lambda j: S.implies(i <= j, lambda: pr[i] <= pr[j]))))  # (the primes are listed in order: bounded contract api_primes)
        S.patch(sq, "_get_first_primes", primes)
        S.patch(sq.np, "arange", arange)
        S.patch(sq.np, "concatenate", concatenate)
        S.patch(sq.np.random, "RandomState", Stream)
        rs = R()
    cls = sequences.HammersleySampler if ham else sequences.HaltonSampler
    try:
        s = cls(d, budget=n, scrambling=scr, random_state=rs)
    except AssertionError:
        S.prove("needs-budget", ham and not known)
        return
    S.prove("has-budget", known or not ham)
    m = d - 1 if ham else d
    S.prove("attributes", S.land(s.dimension == m, s.index == 0, s.random_state is rs, s.permgen.dimension == m, s.permgen.scrambling is scr))
    S.prove("budget", s.budget == n if known else s.budget is None)
    perms = s.permgen.get_permutations_generator()
    if S.symbolic:
        again = s.permgen.get_permutations_generator()
        for q in (perms, again):
            S.prove("one-per-axis", S.len(q) == m)
            k = S.int(f"axis{len(S.c.inputs)}", 0)
            S.assume(k < m)
            x = q[k]
            if scr:
                S.prove("scrambled", S.land(x[0] == "shuffled", x[1] == pr[k]))
            else:
                S.prove("identity", S.land(x[0] == "digits", x[1] == 0, x[2] == pr[k]))
    else:
        perms = [np.asarray(q).tolist() for q in perms]
        again = [np.asarray(q).tolist() for q in s.permgen.get_permutations_generator()]
        S.prove("one-per-axis", len(perms) == m and perms == again)
        S.prove("permutations", all(sorted(q) == list(range(b)) and q[0] == 0 and (scr or q == sorted(q)) for q, b in zip(perms, _primes(m))))


@bounded("C16", [Q + "_get_first_primes", Q + "HaltonPermutationGenerator.get_permutations_generator", Q + "HaltonPermutationGenerator.__init__"], trials=60, conc_s=10,
         bound="at most 400 dimensions")
def api_primes(S):
    n = S.int("n", 0, 400) if S.bool("large") else S.int("n", 0, 40)
    pr = _primes(n)
    S.prove("primes", [int(x) for x in sequences._get_first_primes(n)] == pr)
    scr = S.bool("scrambling")
    g = sequences.HaltonPermutationGenerator(n, scr, np.random.RandomState(S.int("seed", 0, 9999)))
    for _ in range(2):
        perms = list(g.get_permutations_generator())
        S.prove("one-per-dimension", len(perms) == n)
        S.prove("bijections", all(sorted(int(v) for v in q) == list(range(b)) for q, b in zip(perms, pr)))
        S.prove("zero-fixed", all(q[0] == 0 for q in perms))
        if not scr:
            S.prove("identity", all((np.asarray(q) == np.arange(b)).all() for q, b in zip(perms, pr)))
    again = list(g.get_permutations_generator())
    S.prove("same-permutations", all((np.asarray(a) == np.asarray(b)).all() for a, b in zip(perms, again)))


@bounded("C16", [Q + "LHSSampler.__init__", Q + "LHSSampler.reinitialize", Q + "Sampler.__iter__", Q + "HammersleySampler.__init__", Q + "HaltonSampler.__init__", Q + "HaltonSampler.vdc"], trials=200, conc_s=15,
         bound="at most 60 dimensions, 300 points")
def api_samplers(S):
    r = gen.rs(S)
    name = S.choose("sampler", sorted(sequences.samplers))
    d, n = int(r.choice([1, 2, 3, 6, 7, 20, 60])), int(r.choice([1, 2, 3, 10, 37, 300]))
    kw = {}
    if name in ("HaltonSampler", "HammersleySampler"):
        kw["scrambling"] = bool(r.rand() < 0.5)
    s = sequences.samplers[name](d, n, random_state=np.random.RandomState(int(r.randint(9999))), **kw)
    pts = np.array([np.array(x, float) for x in s])
    S.prove("number-and-dimension", pts.shape == (n, d))
    S.prove("unit-cube", bool((pts >= 0).all() and (pts <= 1).all()))
    try:
        s()
        S.fail("over-budget")
    except AssertionError:
        pass
    if name == "LHSSampler":
        for k in range(d):
            S.prove("stratified", sorted(np.minimum(np.floor(pts[:, k] * n + 1e-9), n - 1).astype(int).tolist()) == list(range(n)))
    if name == "RandomSampler":
        return
    s.reinitialize()
    S.prove("same-after-reinitialize", bool((np.array([np.array(s(), float) for _ in range(n)]) == pts).all()))
    if name in ("HaltonSampler", "HammersleySampler"):
        perms = [list(q) for q in s.permgen.get_permutations_generator()]
        o = 0
        if name == "HammersleySampler":
            o = 1
            S.prove("hammersley-first", bool(np.allclose(pts[:, 0], (np.arange(n) + 0.5) / n)))
        S.prove("bases", [len(q) for q in perms] == _primes(d - o))
        for k in range(d - o):
            S.prove("radical-inverse", bool(np.allclose(pts[:, k + o], [_radical(i + 1, perms[k]) for i in range(n)])))


_ONESHOT = sorted(n for n, c in ng.optimizers.registry.items() if getattr(c, "one_shot", False))


@bounded("C16", [O + "_SamplingSearch._internal_ask", O + "_SamplingSearch.sampler", O + "_RandomSearch._internal_ask", O + "OneShotOptimizer._internal_ask_candidate", Q + "Rescaler.__init__", Q + "Rescaler.apply"],
         trials=400, conc_s=30, bound="all one-shot optimizers of the registry, at most 8 dimensions, budget at most 40")
def api_oneshot(S):
    r = gen.rs(S)
    name = S.choose("optimizer", _ONESHOT)
    d, b = int(r.choice([1, 2, 3, 8])), int(r.choice([1, 2, 3, 4, 5, 10, 40]))
    bnd = r.rand() < 0.4
    par = ng.p.Array(shape=(d,))
    if bnd:
        par.set_bounds(-2.0, 5.0)
    par.random_state.seed(int(r.randint(9999)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = ng.optimizers.registry[name](par, budget=b)
        seen, data = [], []
        for _ in range(b):
            c = opt.ask()
            seen.append((c, c.value.copy()))
            data.append(c.get_standardized_data(reference=opt.parametrization))
            S.prove("finite", bool(np.isfinite(c.value).all()), name=name, d=d, budget=b)
            S.prove("bounds", not bnd or bool((c.value >= -2 - 1e-9).all() and (c.value <= 5 + 1e-9).all()))
        S.prove("not-modified-later", all((c.value == v).all() for c, v in seen))
        S.prove("distinct", len({c.uid for c, _ in seen}) == b)
        cfg = opt
        if getattr(cfg, "middle_point", False):
            S.prove("middle-first", bool(np.allclose(data[0], 0)))
        mode = getattr(cfg, "opposition_mode", None)
        if mode is not None and not bnd:
            first = 1 if getattr(cfg, "middle_point", False) and isinstance(cfg, oneshot._SamplingSearch) else 0
            for k in range(first, b - 1, 2):
                x, y = data[k], data[k + 1]
                nx, ny = np.linalg.norm(x), np.linalg.norm(y)
                S.prove("opposite", nx == 0 or ny <= nx * (1 + 1e-6) and abs(float(x @ y) + nx * ny) <= 1e-6 * max(1.0, nx * nx), k=k, name=name)
                if mode == "opposite":
                    S.prove("symmetric", bool(np.allclose(x, -y, rtol=1e-6)))
        for c, _ in seen:
            opt.tell(c, float(r.normal()))
        S.prove("recommendation-finite", bool(np.isfinite(opt.provide_recommendation().value).all()))
