"""C13 (Pareto front), C14 (hypervolume)."""
import itertools
import math
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded, partial
from ngvc.seq import Inv
from nevergrad.optimization.multiobjective import core as mo
from nevergrad.optimization.multiobjective import hypervolume as hv
from nevergrad.parametrization import parameter as p
from contracts import gen

M = "nevergrad.optimization.multiobjective.core:"
H = "nevergrad.optimization.multiobjective.hypervolume:"


class _Told:
    """a told candidate: only its losses matter"""

    def __init__(self, index, losses):
        self.index, self.losses = index, losses


def _points(S, name, n, d, lo=-3, hi=3):
    """sequence of n candidates with any loss vectors of size d"""
    if S.symbolic:
        f = S.c.fresh_fn(name, S.arr_.I, S.arr_.I, S.arr_.R)
        return S.seqof(n, lambda k: _Told(k, S.arr_.SArr((d,), lambda j, k=k: f(S.core.toz(k), j))))
    r = np.random.RandomState(S.int(name + "_seed", 0, 2**31 - 1))
    kind = r.choice(["ties", "any", "close"])
    if kind == "close":  # differences which are small, but differences
        lo, hi = 1, 2
    pts = [(r.uniform(lo, hi, size=d) if kind == "any" else r.randint(lo, hi + 1, size=d)).astype(float) for k in range(n)]
    step = float(10 ** r.uniform(-14, -6)) if kind == "close" else 0
    return [_Told(k, x + step * r.randint(-3, 4, size=d)) for k, x in enumerate(pts)]


def _dom(S, a, b, d):
    """a dominates b, in the words of the documentation: nowhere worse and somewhere better"""
    return S.land(S.forall(d, lambda j: S.at(a, j) <= S.at(b, j)), S.exists(d, lambda j: S.at(a, j) < S.at(b, j)))


@contract("C13", [M + "ParetoFront._filter_pareto_front", M + "ParetoFront.get_raw", M + "ParetoFront.get_front"], trials=300)
def filter_front(S):
    """any number of points and objectives: the filtered front is exactly the non-dominated points, once each, in order"""
    n, d = S.size("n", 0, 9), S.size("d", 1, 3)
    pts = _points(S, "pts", n, d)
    pf = mo.ParetoFront(seed=0)
    pf._pareto = pts
    pf._pareto_needs_filtering = True
    front = pf.get_front()
    S.prove("clean", pf._pareto_needs_filtering is False)
    nd = lambda k: S.lnot(S.exists(n, lambda q: _dom(S, S.at(pts, q).losses, S.at(pts, k).losses, d)))  # noqa
    if S.symbolic:
        _, sig, rho, _ = front.filt
        m = S.core.toz(front.n)
        kept = lambda k: S.core.SBool(S.z3.And(rho(S.core.toz(k)) >= 0, rho(S.core.toz(k)) < m, sig(rho(S.core.toz(k))) == S.core.toz(k)))  # noqa
        S.prove("members-non-dominated", S.forall(front.n, lambda q: nd(S.at(front, q).index)))
        S.prove("all-non-dominated", S.forall(n, lambda k: S.implies(nd(k), lambda: kept(k))))
        S.prove("once-in-order", S.forall(front.n, lambda a: S.forall(front.n, lambda b: S.implies(a < b, lambda: S.at(front, a).index < S.at(front, b).index))))
    else:
        S.prove("exact", [x.index for x in front] == [k for k in range(n) if nd(k)])
        S.prove("same-objects", all(any(x is y for y in pts) for x in front))
    S.prove("stable", pf.get_front() is front and pf.get_raw() is front)


@contract("C13", [M + "ParetoFront._filter_pareto_front"], trials=50)
def dominance_is_a_strict_order(S):
    """the relation deciding the front has no cycle: with finitely many points every dominated one is dominated by a member"""
    d = S.size("d", 1, 4)
    a, b, c = (S.arr(x, d, -2, 2) if not S.symbolic else S.arr(x, d) for x in "abc")
    S.prove("irreflexive", S.lnot(_dom(S, a, a, d)))
    S.prove("transitive", S.implies(S.land(_dom(S, a, b, d), _dom(S, b, c, d)), lambda: _dom(S, a, c, d)))


@contract("C13", [M + "ParetoFront.add_to_pareto", M + "ParetoFront.get_raw"], trials=100)
def add_to_front(S):
    n, d = S.size("n", 0, 5), S.size("d", 1, 3)
    pts = _points(S, "pts", n, d)
    pf = mo.ParetoFront(seed=0)
    pf._pareto = pts if not S.symbolic else pts.copy()
    new = _Told(-1, S.arr("new", d))
    pf.add_to_pareto(new)
    raw = pf.get_raw()
    S.prove("needs-filtering", pf._pareto_needs_filtering is True)
    S.prove("one-more", S.len(raw) == n + 1)
    S.prove("last", S.at(raw, n) is new or S.at(raw, n).index == -1)
    if S.symbolic:
        S.prove("others-kept", S.forall(n, lambda k: S.at(raw, k).index == k))


class _Param(p.Constant):
    pass


def _param(losses):
    c = _Param(0)
    c._losses = losses
    return c


@contract("C13", [M + "HypervolumePareto.add", M + "HypervolumePareto.__init__"], trials=300)
def add_auto_bound(S):
    """initial points without reference: they join the front unless they are worse than all the previous ones everywhere,
    and the reference is the largest loss of each objective"""
    d = S.size("d", 1, 3)
    left = S.size("left", 1, 15)
    h = mo.HypervolumePareto(auto_bound=3, seed=0)
    S.prove("starts-empty", h._auto_bound == 3 and bool((h._upper_bounds == -np.inf).all()) and h.get_min_losses.__self__ is h)
    h._auto_bound = left
    first = not S.symbolic and S.choose("first", [True, False])
    ub = S.arr("bounds", d, -4, 4) if not S.symbolic else S.arr("bounds", d)
    if not first:
        h._upper_bounds = ub
    new = S.arr("new", d, -4, 4) if not S.symbolic else S.arr("new", d)
    c = _param(new)
    added = []
    S.patch(h._pf, "add_to_pareto", added.append, both=True)
    loss = h.add(c)
    worse = False if first else S.forall(d, lambda j: S.at(new, j) > S.at(ub, j))
    S.prove("counted", h._auto_bound == left - 1)
    S.prove("added-unless-worse", S.iff(S.lnot(worse), len(added) == 1 and added[0] is c))
    if added:
        S.prove("neutral", loss == 0.0)
        if not first:
            S.prove("bounds", S.forall(d, lambda j: S.at(h._upper_bounds, j) == S.ite(S.at(ub, j) >= S.at(new, j), S.at(ub, j), S.at(new, j))))
    else:
        S.prove("worst", loss == float("inf"))
        S.prove("bounds-kept", h._upper_bounds is ub)


@contract("C13", [M + "HypervolumePareto.__init__", "nevergrad.optimization.base:Optimizer.tell"], trials=100)
def reference_is_kept(S):
    """the reference is the vector of losses which was told, whatever happens afterwards to the array which was told"""
    d = S.size("d", 1, 3)
    told, more = S.arr("told", d, -1e9, 1e9), S.arr("more", d, -1e9, 1e9)
    mine = told.copy()
    through = S.choose("through", ["front", "tell"])
    if through == "front":
        h = mo.HypervolumePareto(upper_bounds=mine, seed=0)
    else:
        S.assume(d > 1)
        opt = ng.optimizers.registry["OnePlusOne"](2, budget=10)
        opt.tell(p.MultiobjectiveReference(), mine)
        h = opt._hypervolume_pareto
        S.prove("not-a-tell", opt.num_tell == 0 and opt.num_objectives == d)
    mine[:] = more
    S.prove("reference", S.forall(d, lambda j: S.at(h._upper_bounds, j) == S.at(told, j)))
    S.prove("size", S.land(S.len(h._upper_bounds) == d, h._auto_bound == 0))


@contract("C13", ["nevergrad.optimization.base:Optimizer.pareto_front", "nevergrad.optimization.base:Optimizer._preprocess_multiobjective"], trials=100)
def optimizer_front(S):
    """the front given by the optimizer is the one of its told candidates, with the options of the caller, or else the recommendation alone; each told candidate
    is added to the same front, once, and the loss of the algorithm is what it gives"""
    opt = ng.optimizers.registry["OnePlusOne"](2, budget=10)
    asked, rec = [], object()
    S.patch(opt, "provide_recommendation", lambda: rec, both=True)
    S.prove("no-objectives-yet", opt._hypervolume_pareto is None)
    lone = opt.pareto_front()
    S.prove("recommendation-alone", len(lone) == 1 and lone[0] is rec)
    opt._no_hypervolume = nohv = S.choose("no_hypervolume", [False, True])
    auto = S.size("auto_bound", 0, 15)
    opt._MULTIOBJECTIVE_AUTO_BOUND = auto
    loss = S.real("loss", -100, 100)
    added = []
    S.patch(mo.HypervolumePareto, "add", lambda self, c: added.append((self, c)) or loss, both=True)
    c1, c2 = opt.parametrization.spawn_child(), opt.parametrization.spawn_child()
    first = opt._preprocess_multiobjective(c1)
    h = opt._hypervolume_pareto
    S.prove("made-with-the-settings", h is not None and h._auto_bound == auto and h._no_hypervolume == nohv and bool((h._upper_bounds == -np.inf).all()))
    second = opt._preprocess_multiobjective(c2)
    S.prove("same-front", opt._hypervolume_pareto is h)
    S.prove("added-once-each", len(added) == 2 and added[0][0] is h and added[0][1] is c1 and added[1][0] is h and added[1][1] is c2)
    S.prove("loss", S.land(first == loss, second == loss))
    size, tent = S.int("size", 1, 6), S.int("tentatives", 1, 20)
    subset = S.choose("subset", ["random", "loss-covering", "hypervolume"])
    front = [c1, c2][:S.choose("front", [0, 1, 2])]
    S.patch(h, "pareto_front", lambda size=None, subset="random", subset_tentatives=12: asked.append((size, subset, subset_tentatives)) or front, both=True)
    out = opt.pareto_front(size=size, subset=subset, subset_tentatives=tent)
    S.prove("options", len(asked) == 1 and asked[0][0] is size and asked[0][1] == subset and asked[0][2] is tent)
    if front:
        S.prove("front", len(out) == len(front) and all(u is v for u, v in zip(out, front)))
    else:
        S.prove("recommendation-if-empty", len(out) == 1 and out[0] is rec)


@contract("C13", [M + "HypervolumePareto.add"], trials=300)
def add_beyond_reference(S):
    """with a reference: a point over it somewhere gets its distance as (nonnegative) loss, and joins the front only
    while nothing better is known; other points are not discarded"""
    d = S.size("d", 1, 3)
    ub, new = S.arr("bounds", d), S.arr("new", d)
    nohv = S.choose("no_hypervolume", [False, True])
    h = mo.HypervolumePareto(upper_bounds=[0.0], seed=0, no_hypervolume=nohv)
    h._upper_bounds = ub
    known = S.choose("known", [True, False])
    best = S.real("best", -5, 5) if not S.symbolic else S.real("best")
    if known:
        h._best_volume = best
    added, calls = [], []
    S.patch(h._pf, "add_to_pareto", added.append, both=True)
    S.patch(h, "_calc_hypervolume", lambda c, l: calls.append((c, l)) or -1.5, both=True)
    c = _param(new)
    loss = h.add(c)
    over = S.exists(d, lambda j: S.at(new, j) > S.at(ub, j))
    S.prove("auto-bound-off", h._auto_bound == 0)
    if calls:
        S.prove("inside", S.lnot(over))
        S.prove("given-once", len(calls) == 1 and calls[0][0] is c and calls[0][1] is new and not nohv and loss == -1.5 and not added)
    bv = h._best_volume
    if not calls:
        S.prove("nonnegative", loss >= 0.0)
        # inside without hypervolume: always added; outside: added only if nothing inside is known
        S.prove("inside-added", S.implies(S.lnot(over), lambda: nohv and len(added) == 1))
        S.prove("outside", S.implies(over, lambda: S.land(loss > 0, S.iff(len(added) == 1, bv < 0), bv >= -loss)))
        if known:
            S.prove("best-is-max", S.implies(over, lambda: bv == S.ite(best >= -loss, best, -loss)))
        S.prove("never-better-than-best", S.implies(over, lambda: loss >= -bv))


def _calc_inv(S):
    return {"nevergrad.optimization.multiobjective.core:HypervolumePareto._calc_hypervolume#0": Inv(
        lambda st, k: _dist_ok(S, st, k), havoc=lambda st: {"distance_to_pareto": S.real(f"dist{len(S.c.inputs)}") if S.c.decide_free("fin") else float("inf")}, name="distance")}


def _dist_ok(S, st, k):
    """infinite as long as no point is nowhere larger than the new one"""
    x = st["distance_to_pareto"]
    better = S.exists(k, lambda q: S.below(q))
    return S.lnot(better) if isinstance(x, float) and x == float("inf") else S.land(x >= 0, better)


@contract("C13", [M + "HypervolumePareto._calc_hypervolume"], trials=300, invariants=_calc_inv)
def calc_hypervolume(S):
    """a point joins the front when it increases the volume of the clipped front, and then gets the best loss ever, or when it
    is within the reference and no point of the front is as good (its volume is then lost in the rounding); any other one gets
    a loss which is not better than the best one"""
    n, d = S.size("n", 0, 5), S.size("d", 1, 3)
    pts = _points(S, "pts", n, d)
    S.below = lambda q: S.forall(d, lambda j: S.at(S.at(pts, q).losses, j) <= S.at(new, j))  # noqa
    ub, new = S.arr("bounds", d, None if S.symbolic else 0, None if S.symbolic else 4), S.arr("new", d, None if S.symbolic else -4, None if S.symbolic else 0)
    S.assume(S.forall(d, lambda j: S.at(new, j) <= S.at(ub, j)))
    h = mo.HypervolumePareto(upper_bounds=[0.0], seed=0)
    h._upper_bounds = ub
    best = S.real("best", None if S.symbolic else -2, None if S.symbolic else 8)
    h._best_volume = best
    h._pf._pareto = pts
    given, added = [], []
    vol = S.real("volume", None if S.symbolic else -2, None if S.symbolic else 8)

    class _Ind:
        reference_point = ub

        def compute(self, points):
            given.append(points)
            g = points
            S.prove("all-points", S.len(g) == n + 1)
            S.prove("clipped", S.forall(n, lambda k: S.forall(d, lambda j: S.at(S.at(g, k), j) == S.ite(S.at(S.at(pts, k).losses, j) <= S.at(ub, j), S.at(S.at(pts, k).losses, j), S.at(ub, j)))))
            S.prove("with-new", S.forall(d, lambda j: S.at(S.at(g, n), j) == S.at(new, j)))
            return vol

    known = S.choose("known", [True, False])
    if known:
        h._hypervolume = h._pf._hypervolume = _Ind()
    else:
        S.patch(mo, "HypervolumeIndicator", lambda r: _ind(r), both=True)
        refs = []

        def _ind(r):
            refs.append(r)
            return _Ind()

    S.patch(h._pf, "add_to_pareto", added.append, both=True)
    S.patch(h._pf, "get_front", lambda: pts, both=True)
    c = _param(new)
    loss = h._calc_hypervolume(c, new)
    if not known:
        S.prove("reference", len(refs) == 1 and refs[0] is ub and h._pf._hypervolume is h._hypervolume)
    S.prove("computed-once", len(given) == 1)
    lost = S.land(S.forall(d, lambda j: S.at(new, j) < S.at(ub, j)), S.lnot(S.exists(n, S.below)))
    S.prove("joins-iff-better", S.iff(len(added) == 1, S.lor(vol > best, lost)))
    if added:
        S.prove("best", S.land(S.eq(h._best_volume, S.ite(vol > best, vol, best)), S.eq(loss, -h._best_volume), added[0] is c))
    else:
        S.prove("best-kept", h._best_volume == best)
        if not (type(loss) is float and math.isinf(loss)):
            S.prove("not-better", loss >= -vol)
            S.prove("not-better-than-best", loss >= -best)


@contract("C13", [M + "ParetoFront.get_front", M + "HypervolumePareto.pareto_front"], trials=200)
def front_subset(S):
    """a subset is one of the draws from the front of the requested size"""
    n, size = S.size("n", 0, 8), S.size("size", 1, 8)
    pts = _points(S, "pts", n, 2)
    h = mo.HypervolumePareto(upper_bounds=[9.0, 9.0], seed=0)
    pf = h._pf
    pf._pareto = pts
    filtered = []
    pf._pareto_needs_filtering = S.choose("dirty", [True, False])
    dirty = pf._pareto_needs_filtering
    S.patch(pf, "_filter_pareto_front", lambda: filtered.append(1), both=True)
    draws = []

    class _Rng:
        def choice(self, a, k):
            draws.append((a, k))
            return self

        def tolist(self):
            return "draw"

    pf._rng = _Rng()
    out = h.pareto_front(size)
    S.prove("filtered-first", len(filtered) == (1 if dirty else 0))
    if out is pts:
        S.prove("whole", size >= n)
    else:
        S.prove("drawn", S.land(size < n, out == "draw" and len(draws) == 1 and draws[0][0] is pts, draws[0][1] == size))
    S.prove("default-is-all", h.pareto_front() is pts)


# ------------------------------------------------------------------ bounded executions
def _dominates(a, b):
    return bool((a <= b).all() and (a < b).any())


_MO_ALGOS = ["OnePlusOne", "RandomSearch", "DE", "CMA", "PSO", "NGOpt", "LhsDE", "DiscreteOnePlusOne", "TwoPointsDE", "NelderMead" if False else "ES"]


@bounded("C13", [M + "HypervolumePareto.add", M + "HypervolumePareto._calc_hypervolume", M + "ParetoFront.get_front", M + "ParetoFront._filter_pareto_front",
                 "nevergrad.optimization.base:Optimizer.pareto_front", "nevergrad.optimization.base:Optimizer._preprocess_multiobjective"],
         trials=400, conc_s=20, bound="1 to 4 objectives, at most 35 tells, 10 algorithms")
def api_pareto(S):
    r = gen.rs(S)
    d = int(r.randint(2, 5))
    algo = _MO_ALGOS[r.randint(len(_MO_ALGOS))] if r.rand() < 0.5 else "RandomSearch"
    par = p.Array(shape=(2,))
    par.random_state.seed(int(r.randint(2**31)))
    opt = ng.optimizers.registry[algo](par, budget=100)
    useref = r.rand() < 0.5
    ref = None
    if useref:
        ref = np.full(d, 5.0) if r.rand() < 0.5 else r.uniform(3, 8, size=d)
        mine = ref.copy()
        opt.tell(p.MultiobjectiveReference(), mine if r.rand() < 0.5 else mine.tolist())
        mine /= 10  # the array of the user does not belong to the optimizer
    buf = np.zeros(d)  # of a function always returning the same array
    told, cands = [], []
    kind = r.randint(4)
    asked = [opt.ask() for _ in range(int(r.randint(1, 4)))]
    nohv = opt._no_hypervolume
    for i in range(int(r.randint(1, 35))):
        asked.append(opt.ask())
        c = asked.pop(int(r.randint(len(asked))))
        l = r.randint(1, 4, size=d) + r.randint(-3, 4, size=d) * 1e-10 if kind == 3 else r.randint(0, 8, size=d).astype(float) if kind == 0 else r.uniform(0, 8, size=d) if kind == 1 else np.round(np.abs(r.normal(size=d)) * 3, 1)
        if told and r.rand() < 0.15:
            l = np.array(told[r.randint(len(told))])
        form = r.randint(4)
        buf[:] = l
        opt.tell(c, buf if form == 3 else l if form == 0 else l.tolist() if form == 1 else tuple(l.tolist()))
        told.append(l)
        cands.append(c)
        S.prove("losses-recorded", bool((c.losses == l).all()))
        if r.rand() < 0.3 or i > 30:
            _check_front(S, opt, told, cands, nohv)
    _check_front(S, opt, told, cands, nohv)
    front = opt.pareto_front()
    pf = opt._hypervolume_pareto
    for subset in ["random", "loss-covering", "domain-covering", "EPS", "hypervolume"]:
        size = int(r.randint(1, 8))
        try:
            sub = opt.pareto_front(size, subset=subset, subset_tentatives=int(r.randint(1, 6)))
        except RuntimeError:
            S.prove("only-without-hypervolume", subset == "hypervolume" and pf._hypervolume is None)
            continue
        S.prove("subset-members", all(any(x is y for y in front) for x in sub))
        S.prove("subset-size", len(sub) == min(size, len(front)))
    S.prove("unchanged", opt.pareto_front() is front and all(any(x is c for c in cands) for x in front))
    S.prove("once", len({id(x) for x in front}) == len(front))


def _check_front(S, opt, told, cands, nohv):
    front = opt.pareto_front()
    F = [x.losses for x in front]
    ub = opt._hypervolume_pareto._upper_bounds
    strict = [l for l in told if (l < ub).all()]
    for x in front:
        S.prove("told", any(x is c for c in cands))
        S.prove("member-not-dominated-by-member", not any(_dominates(o, x.losses) for o in F))
        S.prove("member-not-dominated", not any(_dominates(o, x.losses) for o in strict))
    for l in strict:
        S.prove("represented", any((o <= l).all() for o in F), losses=l, front=[f.tolist() for f in F])
        if not any(_dominates(o, l) for o in told):
            S.prove("non-dominated-present", any((o == l).all() for o in F))
    if nohv and ub.size == told[0].size:
        pass


@bounded("C13", [M + "HypervolumePareto.add", M + "HypervolumePareto._calc_hypervolume"], trials=300, conc_s=10, bound="at most 25 points, 1 to 4 objectives")
def api_losses(S):
    """the scalar given to algorithms: a point dominated by a told one never gets a better value than the best one, which
    is minus the volume of the front"""
    r = gen.rs(S)
    d = int(r.randint(2, 5))
    ref = np.full(d, 5.0)
    h = mo.HypervolumePareto(upper_bounds=ref, seed=0)
    told = []
    vals = []
    for _ in range(int(r.randint(1, 25))):
        l = r.randint(0, 8, size=d).astype(float) if r.rand() < 0.5 else r.uniform(0, 6, size=d)
        loss = h.add(_param(l))
        told.append(l)
        inside = [np.minimum(x, ref) for x in told if (x <= ref).all()]
        vol = _brute(inside, ref) if inside else 0.0
        dominated = any(_dominates(o, l) or (o == l).all() for o in told[:-1])
        if (l <= ref).all():
            if not dominated and (l < ref).all():
                S.prove("best-ever", abs(loss + vol) <= 1e-7 * max(1, vol) and all(loss < v for v in vals), got=loss, want=-vol)
            S.prove("not-better-than-volume", loss >= -vol - 1e-7 * max(1, vol), got=loss, vol=vol)
        else:
            S.prove("beyond", abs(loss - np.maximum(0, l - ref).sum()) <= 1e-9 * max(1, abs(loss)))
        if vol > 0:
            S.prove("best-volume", abs(h.best_volume - vol) <= 1e-7 * max(1, vol), got=h.best_volume, want=vol)
        vals.append(loss)


# ---------------------------------------------------------------------------------------------------- C14
def _brute(P, ref):
    """measure of the union of the boxes, on the grid of the coordinates"""
    P = np.array(P, float).reshape(-1, len(ref))
    d = len(ref)
    grids = [np.unique(np.concatenate([np.minimum(P[:, i], ref[i]), [ref[i]]])) for i in range(d)]
    tot = 0.0
    for idx in itertools.product(*[range(len(g) - 1) for g in grids]):
        lo = np.array([grids[i][k] for i, k in enumerate(idx)])
        if (P <= lo).all(axis=1).any():
            tot += float(np.prod([grids[i][k + 1] - grids[i][k] for i, k in enumerate(idx)]))
    return tot


def _measure(S, P, d):
    """inclusion-exclusion formula of the measure of the union of the boxes [p, 0] (coordinates <= 0)"""
    tot = 0.0
    for k in range(1, len(P) + 1):
        for sub in itertools.combinations(range(len(P)), k):
            vol = 1.0
            for j in range(d):
                m = P[sub[0]][j]
                for q in sub[1:]:
                    m = m if m >= P[q][j] else P[q][j]
                vol = vol * (-m)
            tot = tot + vol if k % 2 else tot - vol
    return tot


class _ObjNp:
    """contract of numpy.zeros / full: arrays of the given values (which can hold symbolic values afterwards)"""

    def __init__(self, real):
        self._real = real

    def zeros(self, n):
        return self.full(n, 0.0)

    def full(self, n, v):
        return [v] * n

    def __getattr__(self, k):
        return getattr(self._real, k)


def _hyper(S, n, d, zero=False):
    if S.symbolic:
        S.patch(hv, "np", _ObjNp(hv.np))
    ref = [S.real(f"r{j}", -2, 4) if not S.symbolic else S.real(f"r{j}") for j in range(d)]
    if zero:
        ref = [0.0] * d
    P = []
    for i in range(n):
        row = []
        for j in range(d):
            x = S.real(f"p{i}{j}", -4, 4) if not S.symbolic else S.real(f"p{i}{j}")
            if not S.symbolic:
                x = ref[j] - float(S.choose(f"g{i}{j}", [abs(x), 0.0, 1.0, 2.0, 3.0]))
            S.assume(x <= ref[j])
            row.append(x)
        P.append(row)
    ind = hv.HypervolumeIndicator(S.array(ref))
    pts = S.array(P)
    out = ind.compute(pts)
    # the differences with the reference are what matters
    D = [[P[i][j] - ref[j] for j in range(d)] for i in range(n)]
    S.prove("measure", S.eq(out, _measure(S, D, d)))
    S.prove("points-kept", S.land(*[S.at(S.at(pts, i), j) == P[i][j] for i in range(n) for j in range(d)]))


@partial("C14", [H + "HypervolumeIndicator.compute", H + "HypervolumeIndicator.recursive_hypervolume"], trials=100, bound="1 objective, at most 4 points with any coordinates")
def measure_1d(S):
    _hyper(S, S.choose("n", [1, 2, 3, 4]), 1)


@partial("C14", [H + "HypervolumeIndicator.compute", H + "HypervolumeIndicator.plane_hypervolume"], trials=200, bound="2 objectives, at most 3 points with any coordinates")
def measure_2d(S):
    _hyper(S, S.choose("n", [1, 2, 3]), 2)


_R = [H + "HypervolumeIndicator.compute", H + "HypervolumeIndicator.recursive_hypervolume", H + "HypervolumeIndicator.skip_dominated_points", H + "HypervolumeIndicator.plane_hypervolume",
      H + "VectorLinkedList.create_sorted", H + "VectorLinkedList.pop", H + "VectorLinkedList.reinsert", H + "VectorLinkedList.update_coordinate_bounds", H + "VectorNode.configure_area"]


@partial("C14", _R, trials=200, bound="2 objectives, 4 points with any coordinates", max_paths=20000, deep=True)
def measure_2d_4(S):
    _hyper(S, 4, 2, True)


@partial("C14", _R, trials=200, bound="3 objectives, 2 points with any coordinates", max_paths=20000)
def measure_3d_2(S):
    _hyper(S, S.choose("n", [1, 2]), 3)


@partial("C14", _R, trials=200, bound="3 objectives, 3 points with any coordinates", max_paths=40000, deep=True)
def measure_3d_3(S):
    _hyper(S, 3, 3, True)


@partial("C14", _R, trials=200, bound="4 objectives, 2 points with any coordinates", max_paths=20000)
def measure_4d_2(S):
    _hyper(S, S.choose("n", [1, 2]), 4, True)


class _Chain:
    """contract of the linked list along one dimension: the nodes 0..n-1 by increasing coordinate, then the sentinel"""

    def __init__(self, S, n, xs, ys):
        self.S, self.n, self.xs, self.ys = S, n, xs, ys
        self.sentinel = _Link(self, None)

    def node(self, k):
        if self.S.symbolic:
            return _Link(self, k) if k < self.n else self.sentinel
        return _Link(self, k) if k < self.n else self.sentinel

    def iterate(self, dimension):
        assert dimension == 1
        return self.S.seqof(self.n, lambda k: _Link(self, k))

    def chain_length(self, dimension):
        return self.n


class _Link:
    def __init__(self, chain, k):
        self.chain, self.k = chain, k

    @property
    def coordinates(self):
        return [self.chain.S.at(self.chain.xs, self.k), self.chain.S.at(self.chain.ys, self.k)]

    @property
    def next(self):
        c, k = self.chain, self.k

        class _N:
            def __getitem__(self, d):
                assert d == 1
                return c.node(0 if k is None else k + 1)

        return _N()

    @property
    def prev(self):
        c, k = self.chain, self.k

        class _N:
            def __getitem__(self, d):
                assert d == 1
                return _Link(c, c.n - 1) if k is None else c.sentinel if k == 0 else _Link(c, k - 1)

        return _N()


def _plane_inv(S):
    return {"nevergrad.optimization.multiobjective.hypervolume:HypervolumeIndicator.plane_hypervolume#0": Inv(
        lambda st, k: S.land(k < S.plane_n, st["h"] == S.plane_X(k), st["hypervolume"] == S.plane_A(k)),
        havoc=lambda st: {"h": S.core.wrapz(S.c.fresh("h", S.arr_.R)), "hypervolume": S.core.wrapz(S.c.fresh("hyp", S.arr_.R))}, name="sweep")}


@contract("C14", [H + "HypervolumeIndicator.plane_hypervolume"], trials=200, invariants=_plane_inv)
def plane_sweep(S):
    """2 objectives, any number of points sorted by the second coordinate: the result is the sum over the slices
    [y_k, y_k+1] of their height times their width, the width being given by the smallest first coordinate so far"""
    n = S.size("n", 1, 8)
    xs = S.arr("xs", n, -5, 0)
    ys = S.arr("ys", n, -5, 0)
    ind = hv.HypervolumeIndicator(np.zeros(2))
    if S.symbolic:
        S.assume(S.forall(n, lambda i: S.forall(n, lambda j: S.implies(i <= j, lambda: S.at(ys, i) <= S.at(ys, j)))))
        z3, core = S.z3, S.core
        X, A = S.c.fresh_fn("X", S.arr_.I, S.arr_.R), S.c.fresh_fn("A", S.arr_.I, S.arr_.R)
        k = z3.Int("pk")
        zx, zy = (lambda t: core.toz(S.at(xs, core.SInt(t)))), (lambda t: core.toz(S.at(ys, core.SInt(t))))
        S.c.add(X(0) == zx(z3.IntVal(0)))
        S.c.add(A(0) == 0)
        S.c.add(z3.ForAll([k], z3.Implies(k >= 0, X(k + 1) == z3.If(zx(k + 1) < X(k), zx(k + 1), X(k))), patterns=[X(k + 1)]))
        S.c.add(z3.ForAll([k], z3.Implies(k >= 0, A(k + 1) == A(k) + X(k) * (zy(k) - zy(k + 1))), patterns=[A(k + 1)]))
        S.plane_n, S.plane_X, S.plane_A = n, (lambda t: core.wrapz(X(core.toz(t)))), (lambda t: core.wrapz(A(core.toz(t))))
        ind._multilist = _Chain(S, n, xs, ys)
        out = ind.plane_hypervolume()
        last = core.toz(n) - 1
        S.prove("slices", out == core.wrapz(A(last) + X(last) * zy(last)))
    else:
        ys = np.sort(ys)
        ind._multilist = _Chain(S, n, xs, ys)
        out = ind.plane_hypervolume()
        S.prove("slices", S.eq(out, sum(-np.min(xs[: k + 1]) * ((ys[k + 1] if k + 1 < n else 0) - ys[k]) for k in range(n))))


@contract("C14", [H + "VectorLinkedList.sort_by_index"], trials=100)
def sorted_nodes(S):
    """any number of nodes: a permutation, by increasing coordinate"""
    n, d = S.size("n", 0, 7), 3
    j = S.choose("j", [0, 1, 2])
    f = _points(S, "pts", n, d)
    nodes = S.seqof(n, lambda k: _Coord(k, S.at(f, k).losses)) if S.symbolic else [_Coord(k, f[k].losses) for k in range(n)]
    out = hv.VectorLinkedList.sort_by_index(nodes, j)
    S.prove("size", S.len(out) == n)
    key = lambda q: S.at(S.at(out, q).coordinates, j)  # noqa
    S.prove("sorted", S.forall(n, lambda a: S.forall(n, lambda b: S.implies(a <= b, lambda: key(a) <= key(b)))))
    S.prove("distinct", S.forall(n, lambda a: S.forall(n, lambda b: S.implies(S.at(out, a).index == S.at(out, b).index, lambda: a == b))))


class _Coord:
    def __init__(self, index, coordinates):
        self.index, self.coordinates = index, coordinates


class _Links:
    """the heap of the linked lists: any number of nodes and of lists, the neighbours of node x in list i are next(i, x) and prev(i, x)"""

    def __init__(self, S):
        self.S = S
        self.set(*self.fresh())

    def fresh(self):
        c, I = self.S.c, self.S.arr_.I
        return c.fresh_fn("next", I, I, I), c.fresh_fn("prev", I, I, I)

    def set(self, nx, pv):
        self.maps = {"next": nx, "prev": pv}

    def read(self, which, i, x):
        return self.S.core.SInt(self.maps[which](self.S.core.toz(i), self.S.core.toz(x)))

    def write(self, which, i, x, v):
        z3, old, toz = self.S.z3, self.maps[which], self.S.core.toz
        i, x, v = toz(i), toz(x), toz(v)
        self.maps[which] = lambda a, b: z3.If(z3.And(a == i, b == x), v, old(a, b))


class _Side:
    def __init__(self, g, which, x):
        self.g, self.which, self.x = g, which, x

    def __getitem__(self, i):
        return _node(self.g, self.g.read(self.which, i, self.x))

    def __setitem__(self, i, node):
        self.g.write(self.which, i, self.x, node.ident)


class _Node(hv.VectorNode):
    @property
    def next(self):
        return _Side(self.links, "next", self.ident)

    @property
    def prev(self):
        return _Side(self.links, "prev", self.ident)


def _node(g, ident):
    out = object.__new__(_Node)
    out.links, out.ident = g, ident
    return out


def _links_inv(S):
    """the lists before k are as required, the others as they were"""

    def inv(st, k):
        z3, toz = S.z3, S.core.toz
        j, x = z3.Ints("lj lx")
        new, old, want = S.links.maps, S.old, S.want
        return S.core.wrapz(z3.And(*[z3.ForAll([j, x], new[w](j, x) == z3.If(z3.And(j >= 0, j < toz(k)), want[w](j, x), old[w](j, x))) for w in ("next", "prev")]))

    def havoc(st):
        S.links.set(*S.links.fresh())
        return {}

    return {H + "VectorLinkedList.pop#0": Inv(inv, havoc, name="unlinked-so-far"), H + "VectorLinkedList.reinsert#0": Inv(inv, havoc, name="linked-so-far")}


def _same(S, want):
    z3 = S.z3
    j, x, m = *z3.Ints("lj lx"), S.core.toz(S.links_n)
    return S.core.wrapz(z3.And(*[z3.ForAll([j, x], S.links.maps[w](j, x) == z3.If(z3.And(j >= 0, j < m), want[w](j, x), S.start[w](j, x))) for w in ("next", "prev")]))


@contract("C14", [H + "VectorLinkedList.pop", H + "VectorLinkedList.reinsert", H + "VectorNode.pop", H + "VectorNode.next", H + "VectorNode.prev"], trials=200, invariants=_links_inv)
def unlink_and_link(S):
    """any number of lists with any nodes: removing a node links its neighbours in the first lists and changes nothing else; inserting it again restores all the lists exactly"""
    if S.symbolic:
        z3 = S.z3
        g = S.links = _Links(S)
        n, m = S.int("node"), S.int("lists", 0)
        S.links_n = m
        start = S.start = S.old = dict(g.maps)
        j, x = z3.Ints("lj lx")
        zn = S.core.toz(n)
        nx, pv = start["next"], start["prev"]
        S.c.add(z3.ForAll([j], z3.And(nx(j, pv(j, zn)) == zn, pv(j, nx(j, zn)) == zn, pv(j, zn) != zn, nx(j, zn) != zn), patterns=[nx(j, zn), pv(j, zn)]))  # (node is in the lists)
        removed = {"next": lambda a, b: z3.If(b == pv(a, zn), nx(a, zn), nx(a, b)), "prev": lambda a, b: z3.If(b == nx(a, zn), pv(a, zn), pv(a, b))}
        S.want = removed
        ll, node = object.__new__(hv.VectorLinkedList), _node(g, n)
        S.prove("gives-the-node", ll.pop(node, m) is node)
        S.prove("neighbours-linked", _same(S, removed))
        mid = {w: (lambda a, b, w=w: z3.If(z3.And(a >= 0, a < S.core.toz(m)), removed[w](a, b), start[w](a, b))) for w in start}
        g.maps = dict(mid)
        S.old, S.want = mid, start
        ll.reinsert(node, m)
        S.prove("restored", _same(S, start))
        return
    d, n = S.size("d", 1, 4), S.size("n", 1, 6)
    pts = np.random.RandomState(S.int("seed", 0, 9999)).randint(0, 4, size=(n, d)).astype(float)
    ll = hv.VectorLinkedList.create_sorted(d, pts)
    nodes = list(ll.iterate(0))
    orders = lambda: [([id(x) for x in ll.iterate(j)], [id(x) for x in ll.reverse_iterate(j)]) for j in range(d)]  # noqa
    before = orders()
    S.prove("linked-both-ways", all(a == b[::-1] and len(a) == n for a, b in before))
    S.prove("sorted", all(all(u.coordinates[j] <= v.coordinates[j] for u, v in zip(list(ll.iterate(j)), list(ll.iterate(j))[1:])) for j in range(d)))
    taken = [nodes[S.int(f"node{q}", 0, n - 1)] for q in range(S.size("removed", 1, 3))]
    taken = list({id(x): x for x in taken}.values())
    m = S.int("lists", 0, d)
    for x in taken:
        S.prove("gives-the-node", ll.pop(x, m) is x)
    gone = {id(x) for x in taken}
    for j, (a, b) in enumerate(orders()):
        want = [u for u in before[j][0] if j >= m or u not in gone]
        S.prove("neighbours-linked", a == want and b == want[::-1])
    for x in reversed(taken):
        ll.reinsert(x, m)
    S.prove("restored", orders() == before)


def _bounds_inv(S):
    def inv(st, k):
        return S.land(S.len(st["bounds"]) == S.bn, S.forall(S.bn, lambda j: S.at(st["bounds"], j) == S.ite(S.land(j < k, S.b0[j] > S.bc[j]), S.bc[j], S.b0[j])))

    return {H + "VectorLinkedList.update_coordinate_bounds#0": Inv(inv, lambda st: {"bounds": S.arr(f"hb{len(S.c.inputs)}", S.bn)}, name="bounds-so-far")}


@contract("C14", [H + "VectorLinkedList.update_coordinate_bounds"], trials=100, invariants=_bounds_inv)
def coordinate_bounds(S):
    """any dimension: the first bounds become the minimum of themselves and of the coordinates of the node"""
    n, k = S.size("n", 1, 5), S.int("index", 0, None if S.symbolic else 5)
    S.assume(k <= n)
    b, c = S.arr("bounds", n, -3, 3), S.arr("coordinates", n, -3, 3)
    b0 = b.copy()
    S.bn, S.b0, S.bc = n, b0, c
    out = hv.VectorLinkedList.update_coordinate_bounds(b, _Coord(0, c), k)
    S.prove("minimum", S.land(S.len(out) == n, S.forall(n, lambda j: S.at(out, j) == S.ite(S.land(j < k, S.at(b0, j) > S.at(c, j)), S.at(c, j), S.at(b0, j)))))


class _NoRecursion(hv.HypervolumeIndicator):
    """contract of recursive_hypervolume: some number, for the dimension that was asked"""

    def recursive_hypervolume(self, dimension):
        self.asked.append(dimension)
        return self.volume


@contract("C14", [H + "HypervolumeIndicator.skip_dominated_points"], trials=100)
def slice_of_a_point(S):
    """any dimension and areas: a point known as dominated gets the area of the previous one, without any computation; any other point gets the
    area of the smaller dimension, and it is known as dominated from now on only if this adds nothing to the area of the previous one"""
    d = S.int("d", 1, None if S.symbolic else 6)
    n = S.size("n", 2, 7)
    S.assume(d < n)
    flag, volume = S.int("flag", 0, None if S.symbolic else 7), S.real("volume", -9, 9)
    area, before = S.arr("area", n, -9, 9), S.arr("previous", n, -9, 9)
    a0, p0 = area.copy(), before.copy()
    node = type("N", (), {})()
    previous = type("N", (), {})()
    previous.area = before
    node.area, node.dominated_flag = area, flag
    node.prev = S.seqof(n, lambda k: previous) if S.symbolic else [previous] * n
    ind = _NoRecursion(np.zeros(2))
    ind.asked, ind.volume = [], volume
    ind.skip_dominated_points(node, d)
    if flag >= d:
        S.prove("skipped", S.land(S.at(node.area, d) == S.at(p0, d), node.dominated_flag == flag, len(ind.asked) == 0))
    else:
        S.prove("computed", S.land(len(ind.asked) == 1, ind.asked[0] == d - 1, S.at(node.area, d) == volume))
        S.prove("known-as-dominated", S.lor(node.dominated_flag == flag, S.land(node.dominated_flag == d, volume <= S.at(p0, d))))
    S.prove("only-this-dimension", S.forall(n, lambda j: S.lor(j == d, S.at(node.area, j) == S.at(a0, j))))
    S.prove("previous-unchanged", S.forall(n, lambda j: S.at(previous.area, j) == S.at(p0, j)))


def _chained(S, g, i, k, start):
    """in list i: the sentinel 0, then the nodes 1..k in this order; the other lists, and the other nodes, are as they were"""
    z3, toz = S.z3, S.core.toz
    j, x, k = *z3.Ints("lj lx"), toz(k)
    i = toz(i)
    inside = z3.And(x >= 0, x <= k)
    nx = z3.ForAll([j, x], g.maps["next"](j, x) == z3.If(z3.And(j == i, inside), z3.If(x == k, 0, x + 1), start["next"](j, x)))
    pv = z3.ForAll([j, x], g.maps["prev"](j, x) == z3.If(z3.And(j == i, inside), z3.If(x == 0, k, x - 1), start["prev"](j, x)))
    return S.core.wrapz(z3.And(nx, pv))


def _extend_inv(S):
    def havoc(st):
        S.links.set(*S.links.fresh())
        return {}

    return {H + "VectorLinkedList.extend#0": Inv(lambda st, k: _chained(S, S.links, S.which, k, S.start), havoc, name="linked-so-far")}


@contract("C14", [H + "VectorLinkedList.extend", H + "VectorLinkedList.append", H + "VectorNode.next", H + "VectorNode.prev"], trials=200, invariants=_extend_inv)
def chain_of_nodes(S):
    """any number of nodes, any list: they are linked in this order between the sentinel and itself, both ways, and the other lists are untouched"""
    if S.symbolic:
        z3 = S.z3
        g = S.links = _Links(S)
        i, n = S.int("list", 0), S.int("n", 0)
        S.which = i
        start = S.start = dict(g.maps)
        zi = S.core.toz(i)
        S.c.add(z3.And(start["next"](zi, 0) == 0, start["prev"](zi, 0) == 0))  # (the list is empty)
        ll = object.__new__(hv.VectorLinkedList)
        ll.sentinel = _node(g, S.core.SInt(z3.IntVal(0)))
        ll.extend(S.seqof(n, lambda k: _node(g, k + 1)), i)
        S.prove("linked-in-order", _chained(S, g, i, n, start))
        return
    d, n = S.size("d", 1, 4), S.size("n", 0, 6)
    i = S.int("list", 0, d - 1)
    ll = hv.VectorLinkedList(d)
    nodes = [hv.VectorNode(d, coordinates=np.arange(d) * 1.0) for _ in range(n)]
    ll.extend(nodes, i)
    for j in range(d):
        want = nodes if j == i else []
        out, back = list(ll.iterate(j)), list(ll.reverse_iterate(j))
        S.prove("linked-in-order", len(out) == len(want) and all(a is b for a, b in zip(out, want)) and len(back) == len(want) and all(a is b for a, b in zip(back, want[::-1])) and ll.chain_length(j) == len(want))


@bounded("C14", _R + [H + "HypervolumeIndicator.plane_hypervolume"], trials=3000, conc_s=45, bound="1 to 6 objectives, at most 11 points (4 in 6 dimensions)")
def api_measure(S):
    r = gen.rs(S)
    d = int(r.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6]))
    n = int(r.randint(1, [0, 12, 12, 10, 7, 5, 5][d]))
    kind = r.randint(4)
    ref = np.full(d, 5.0) if kind < 2 else np.round(r.uniform(-5, 5, size=d), 2)
    P = ref - (r.randint(0, r.choice([2, 3, 6]), size=(n, d)) if kind % 2 else r.uniform(0, 5, size=(n, d)))
    if r.rand() < 0.3:
        P = P[r.randint(n, size=n)]
    if r.rand() < 0.3 and n > 1:
        P[r.randint(n)] = np.maximum(P[r.randint(n)], P[r.randint(n)])
    ind = hv.HypervolumeIndicator(ref)
    Q = P.copy()
    want = _brute(P, ref)
    tol = 1e-9 * max(1.0, want)
    lst = [np.array(x) for x in P]
    got = ind.compute(P if r.rand() < 0.5 else lst)
    S.prove("measure", abs(got - want) <= tol, got=got, want=want, points=P.tolist(), ref=ref.tolist())
    S.prove("inputs", bool((P == Q).all()) and all((a == b).all() for a, b in zip(lst, Q)))
    S.prove("again", ind.compute(P) == got)
    scale = float(10 ** r.uniform(-4, 4))
    small = hv.HypervolumeIndicator(ref * scale).compute(P * scale) / scale**d
    S.prove("units", abs(small - want) <= 1e-7 * max(1.0, want), scale=scale, got=small, want=want)
    S.prove("order", abs(ind.compute(P[r.permutation(n)]) - want) <= tol)
    S.prove("duplicates", abs(ind.compute(np.concatenate([P, P[:1]])) - want) <= tol)
    worse = P[r.randint(n)] + r.uniform(0, 1, size=d) * (ref - P[r.randint(n)] >= 1)
    worse = np.minimum(worse, ref)
    if (P <= worse).all(axis=1).any():
        S.prove("dominated", abs(ind.compute(np.concatenate([worse[None], P])) - want) <= tol)
