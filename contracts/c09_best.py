"""C09 (incumbents over the whole history) and C11 (pruning of the archive)."""
import math
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded
from nevergrad.common import errors
from nevergrad.optimization import base, utils
from nevergrad.optimization.optimizerlib import registry
from nevergrad.parametrization import parameter as p
from contracts import gen

B = "nevergrad.optimization.base:"
U = "nevergrad.optimization.utils:"
NAMES = ["optimistic", "pessimistic", "average", "minimum"]


def _mv(par, count, mean, variance, mini, square=None):
    mv = object.__new__(utils.MultiValue)
    mv.count, mv.mean, mv.variance, mv._minimum = count, mean, variance, mini
    mv.square = mean * mean if square is None else square
    mv.parameter = par
    mv._ref = par
    return mv


class _Arch:
    """contract of the archive: a finite map (any number of points), restricted to what the code may use of it: membership
    and access at the told point, addition of the told point, iteration over the values"""

    def __init__(self, S, n, get, j, cur):
        self.S, self.n, self.get, self.j, self.cur, self.added = S, n, get, j, cur, None

    def __contains__(self, x):
        return self.cur is not None or self.added is not None

    def __getitem__(self, x):
        if x not in self:
            raise KeyError(x)
        return self.cur if self.added is None else self.added

    def __setitem__(self, x, v):
        self.added = v

    def __bool__(self):
        return bool(self.n > 0) or self.added is not None

    def __len__(self):
        return self._ngvc_len()

    def _ngvc_len(self):
        return self.n if self.added is None or self.cur is not None else self.n + 1

    def values(self):
        S, told = self.S, self.added if self.added is not None else self.cur

        def at(k):
            if self.cur is None:
                if self.added is None:
                    return self.get(k)
                return self._mix(k == self.n, told, lambda: self.get(k))
            return self._mix(k == self.j, told, lambda: self.get(k))

        return S.seqof(self.n + (1 if self.cur is None and self.added is not None else 0), at)

    def _mix(self, c, a, b):
        S = self.S
        if not S.symbolic:
            return a if c else b()
        b = b()
        return _mv(a.parameter, S.ite(c, a.count, b.count), S.ite(c, a.mean, b.mean), S.ite(c, a.variance, b.variance), S.ite(c, a._minimum, b._minimum))


def _stub_stats(S):
    """contract of add_evaluation (C10): one more evaluation, minimum updated, other statistics unspecified"""

    def add(self, y):
        self.count = self.count + 1
        self._minimum = S.ite(y < self._minimum, y, self._minimum)
        self.mean, self.variance, self.square = S.real("newmean", -1e10, 1e10), S.real("newvar", 0, 1e10), S.real("newsquare", 0, 1e20)

    S.patch(utils.MultiValue, "add_evaluation", add)


@contract("C09", [B + "Optimizer._update_archive_and_bests", U + "MultiValue.get_estimation"], trials=400)
def incumbent_step(S):
    """inductive step, any archive: if the recorded best has the smallest estimation of the archive, so it has after one more
    tell, whether the point is new, known, or the recorded best itself"""
    n = S.size("n", 0, 12)
    name = S.choose("name", NAMES)
    case = S.choose("case", ["new", "known", "best"])
    par = p.Array(shape=(2,))
    opt = base.Optimizer(par, budget=10)
    means, var, mins = S.arr("means", n, -1e9, 1e9), S.arr("vars", n, 0, 1e9), S.arr("mins", n, -1e9, 1e9)
    counts = S.intarr("counts", n, 1, 20 if not S.symbolic else None)
    objs = {}
    cpar = par.spawn_child()
    cpar.loss = S.real("previous", -1e9, 1e9)

    def get(k):
        if not S.symbolic:
            if int(k) not in objs:
                objs[int(k)] = _mv(cpar, int(counts[k]), float(means[k]), float(var[k]), float(mins[k]))
            return objs[int(k)]
        return _mv(cpar, S.at(counts, k), S.at(means, k), S.at(var, k), S.at(mins, k))

    cur, j = None, -1
    if case != "new":
        j = S.size("j", 0, 11)
        S.assume(j < n)
        cur = get(j)
    S.patch(opt, "archive", arch := _Arch(S, n, get, j, cur), both=True)
    if case == "best":
        best = cur
    else:
        best = _mv(cpar, S.size("bcount", 1, 20), S.real("bmean", -1e9, 1e9), S.real("bvar", 0, 1e9), S.real("bmin", -1e9, 1e9))
    # the other criteria have unbeatable records: they are examined by the other values of `name`
    opt.current_bests = {k: best if k == name else _mv(cpar, 1, -1e30, 0.0, -1e30) for k in NAMES}
    S.assume(S.forall(n, lambda k: best.get_estimation(name) <= get(k).get_estimation(name)))
    old_min = best._minimum
    opt.pruning = None
    _stub_stats(S)
    cand = par.spawn_child()
    loss = S.real("loss", -1e9, 1e9)
    cand.loss = loss
    opt._update_archive_and_bests(cand, loss)
    new = opt.current_bests[name]
    S.prove("smallest-estimation", S.forall(n, lambda k: S.implies(k != j, lambda: new.get_estimation(name) <= get(k).get_estimation(name))))
    S.prove("told-point", new.get_estimation(name) <= arch[cand].get_estimation(name))
    if name == "minimum":
        S.prove("smallest-loss-ever", S.eq(new.get_estimation("minimum"), S.ite(loss < old_min, loss, old_min), tol=0))
    S.prove("entry", arch[cand].count == (1 if case == "new" else arch.cur.count) and (arch.added is not None) == (case == "new"))
    S.prove("others-keep-record", S.land(*[opt.current_bests[k].mean == -1e30 for k in NAMES if k != name]))
    kept = arch[cand].parameter
    S.prove("candidate-kept", kept is cand if case == "new" else S.iff(kept is cand, loss < cpar.loss))


@contract("C09", [B + "Optimizer.recommend", B + "Optimizer.provide_recommendation"], trials=100)
def recommend_reads(S):
    """the recommendation is the candidate of the record of the documented criterion, or the point of the algorithm"""
    par = p.Array(shape=(2,))
    opt = base.Optimizer(par, budget=10)
    cands = {k: par.spawn_child() for k in NAMES}
    opt.current_bests = {k: _mv(cands[k], 1, 0.0, 0.0, 0.0) for k in NAMES}
    det = S.choose("deterministic", [True, False])
    par.function.deterministic = det
    kind = S.choose("algorithm", ["none", "nan", "data"])
    x, y = S.real("x", -1e6, 1e6), S.real("y", -1e6, 1e6)
    if kind == "nan":
        S.patch(opt, "_internal_provide_recommendation", lambda: np.array([np.nan, 0.0]), both=True)
    elif kind == "data":
        S.patch(opt, "_internal_provide_recommendation", lambda: S.array([x, y]), both=True)
    method = opt.recommend if S.choose("method", [0, 1]) else opt.provide_recommendation
    out = method()
    if kind == "data":
        S.prove("algorithm-point", S.land(S.eq(S.at(out.value, 0), x), S.eq(S.at(out.value, 1), y)))
        S.prove("new-child", out is not par and out.parents_uids == [par.uid])
    else:
        S.prove("record", out is cands["minimum" if det else "pessimistic"])
    S.prove("nothing-changed", all(opt.current_bests[k].parameter is cands[k] for k in NAMES) and opt.num_ask == 0 and opt.num_tell == 0)
    opt._num_objectives = 2
    try:
        opt.recommend()
        S.fail("multiobjective")
    except RuntimeError:
        pass


_SIMPLE = ["OnePlusOne", "RandomSearch", "DE", "TwoPointsDE", "PSO", "TBPSA", "CMA", "NaiveTBPSA", "NoisyDE", "DiscreteOnePlusOne", "ScrHammersleySearch", "LHSSearch", "NGOpt", "ES", "EDA", "OptimisticNoisyOnePlusOne", "NoisyBandit", "SPSA", "PortfolioDiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne"]


@bounded("C09", [B + "Optimizer._update_archive_and_bests", B + "Optimizer.tell", B + "Optimizer.recommend"], trials=150, conc_s=20, bound="22 optimizers, at most 60 tells, repeated points and ties")
def api_incumbents(S):
    r = gen.rs(S)
    name = _SIMPLE[r.randint(len(_SIMPLE))] if r.rand() < 0.5 else "RandomSearch"
    det = bool(r.rand() < 0.5)
    par = p.Array(shape=(2,)).set_bounds(-5, 5, method="clipping") if r.rand() < 0.3 else p.Array(shape=(2,))
    par.function.deterministic = det
    par.random_state.seed(int(r.randint(2**31)))
    opt = registry[name](par, budget=int(r.randint(70, 150)), num_workers=1 if registry[name].no_parallelization else int(r.randint(1, 4)))
    if r.rand() < 0.3:
        opt.pruning = utils.Pruning(int(r.randint(2, 6)), int(r.randint(8, 20)))
    pruned = opt.pruning is not None and opt.pruning.max_len < 50
    told = {}  # point -> losses
    best_cand = {}
    ref = opt.parametrization
    ties = r.rand() < 0.3
    allmin = math.inf
    pts = []
    for _ in range(int(r.randint(1, 60))):
        if pts and r.rand() < 0.5:
            x = pts[r.randint(len(pts))] if r.rand() < 0.5 else opt.current_bests[NAMES[r.randint(4)]].parameter.get_standardized_data(reference=ref)
            c = opt.parametrization.spawn_child()
            c.set_standardized_data(x)
        else:
            c = opt.ask()
        loss = float(r.randint(0, 4)) if ties else float(r.normal() * 10 ** r.uniform(-2, 3))
        if r.rand() < 0.03:
            loss = [np.nan, np.inf, 1e25][r.randint(3)]
        try:
            opt.tell(c, loss)
        except errors.TellNotAskedNotSupportedError:
            return
        ok = loss < 5e20
        loss = loss if ok else 5e20
        x = c.get_standardized_data(reference=ref)
        pts.append(x)
        key = x.tobytes()
        # entries may have been pruned: then the statistics start again
        allmin = min(allmin, loss)
        entries = list(opt.archive.bytesdict.items())
        if not pruned:
            told.setdefault(key, []).append(loss)
            if key not in best_cand or loss < best_cand[key][1]:
                best_cand[key] = (c, loss)
            S.prove("entries", {k for k, _ in entries} == set(told))
            S.prove("counts", all(v.count == len(told[k]) for k, v in entries))
            S.prove("kept-candidates", all(v.parameter is best_cand[k][0] for k, v in entries))
        for crit in NAMES:
            b = opt.current_bests[crit]
            if entries:
                m = min(v.get_estimation(crit) for _, v in entries)
                S.prove(f"best-{crit}", b.get_estimation(crit) <= m, best=b.get_estimation(crit), smallest=m)
                if not pruned:
                    S.prove(f"member-{crit}", any(v is b for _, v in entries))
        mn = opt.current_bests["minimum"].get_estimation("minimum")
        S.prove("minimum", mn == allmin or (allmin > 1e10 and mn >= 1e10), got=mn, want=allmin)
        before = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked, len(opt.archive))
        bests = {k: v for k, v in opt.current_bests.items()}
        if type(opt).recommend is base.Optimizer.recommend and opt._internal_provide_recommendation.__func__ is base.Optimizer._internal_provide_recommendation:
            rec = opt.recommend()
            S.prove("recommendation", rec is opt.current_bests["minimum" if det else "pessimistic"].parameter)
            if det and not pruned:
                S.prove("recommended-loss", rec.loss == allmin, got=rec.loss, want=allmin)
        else:
            opt.recommend()
        S.prove("pure", before == (opt.num_ask, opt.num_tell, opt.num_tell_not_asked, len(opt.archive)) and all(opt.current_bests[k] is v for k, v in bests.items()))


# ---------------------------------------------------------------------------------------------------- C11
@contract("C11", [U + "Pruning.sensible_default", U + "Pruning.__init__"], trials=200)
def default_limits(S):
    w, d = S.size("workers", 1, 10**6), S.size("dimension", 1, 10**9)
    pr = utils.Pruning.sensible_default(w, d)
    S.prove("min", pr.min_len == S.ite(7 * w > 100, 7 * w, 100))
    S.prove("fits", S.land(pr.max_len >= 3 * pr.min_len, pr.max_len <= 10 * pr.min_len))
    mem = pr.max_len * d * 16
    S.prove("memory", S.lor(pr.max_len == 3 * pr.min_len, mem <= 1024**3))
    S.prove("not-less-than-allowed", S.lor(pr.max_len == 10 * pr.min_len, (pr.max_len + 1) * d * 16 > 1024**3))


@contract("C11", [U + "Pruning.__call__"], trials=200)
def pruned_only_when_full(S):
    pr = utils.Pruning(S.anyint("min", 1, 100), S.anyint("max", 1, 1000))
    n = S.size("n", 0, 2000)

    class A:
        def __len__(self):
            return n

        def _ngvc_len(self):
            return n

    a, other = A(), A()
    calls = []
    S.patch(pr, "_prune", lambda x: calls.append(x) or other, both=True)
    out = pr(a)
    S.prove("only-when-full", S.iff(len(calls) == 1, n >= pr.max_len))
    S.prove("result", out is (other if calls else a))


class _BytesDict:
    """contract of the dict of the archive: any number of items"""

    def __init__(self, S, n, get):
        self.S, self.n, self.get = S, n, get

    def items(self):
        return self.S.seqof(self.n, lambda k: (k, self.get(k)))

    def values(self):
        return self.S.seqof(self.n, self.get)

    def __len__(self):
        return self.n

    def _ngvc_len(self):
        return self.n


@contract("C11", [U + "Pruning._prune", U + "MultiValue.get_estimation"], trials=300, timeout_ms=20000)
def prune_any_archive(S):
    """any number of points: at each criterion the threshold is the value of rank min_len; the kept points are exactly those
    strictly below one threshold, unaltered; so at least min_len points are at least as good as any removed one"""
    n = S.size("n", 1, 40)
    m = S.size("min_len", 1, 30)
    S.assume(m < n)
    par = p.Array(shape=(2,))
    means, var, mins = S.arr("means", n, -1e9, 1e9), S.arr("vars", n, 0, 1e9), S.arr("mins", n, -1e9, 1e9)
    counts = S.intarr("counts", n, 1, 20 if not S.symbolic else None)
    if not S.symbolic and S.choose("close", [False, True]):  # the confidence intervals overlap: each criterion has another order
        r = np.random.RandomState(S.int("levels", 0, 10**6))
        level = r.randint(3, size=n)
        means = r.uniform(-200, 200, size=n)
        var = np.asarray([0.0, 2e7, 1e9])[level]
        counts = [1 if k == 1 else c for k, c in zip(level, counts)]
    objs = {}

    def get(k):
        if S.symbolic:
            mv = _mv(par, S.at(counts, k), S.at(means, k), S.at(var, k), S.at(mins, k))
            mv.index = k
            return mv
        if int(k) not in objs:
            objs[int(k)] = _mv(par, int(counts[k]), float(means[k]), float(var[k]), float(mins[k]))
            objs[int(k)].index = int(k)
        return objs[int(k)]

    arch = utils.Archive()
    arch.bytesdict = _BytesDict(S, n, get) if S.symbolic else {k: get(k) for k in range(n)}
    if S.symbolic:  # the criteria are arbitrary numbers: the formulas are the matter of C10
        est = {c: S.arr("est_" + c, n) for c in NAMES[:3]}
        S.patch(utils.MultiValue, "get_estimation", lambda self, c: S.at(est[c], self.index))
    pr = utils.Pruning(m, n)
    out = pr._prune(arch)
    S.prove("counted", pr._num_prunings == 1)
    items = out.bytesdict.items()
    items = items if S.symbolic else list(items)
    size = S.len(items)
    S.prove("kept-unaltered", S.forall(size, lambda q: S.land(S.at(items, q)[0] == S.at(items, q)[1].index, S.at(items, q)[1].get_estimation("average") == get(S.at(items, q)[1].index).get_estimation("average"))))
    if S.symbolic:
        _, sig, rho, _ = items.filt
        kept = lambda i: S.core.SBool(S.z3.And(rho(S.core.toz(i)) >= 0, rho(S.core.toz(i)) < S.core.toz(size), sig(rho(S.core.toz(i))) == S.core.toz(i)))  # noqa
        qs = S.c.quantiles
        which = {c: q for q in qs for c in NAMES[:3] if f"est_{c}(" in str(q[0].perm[3](S.z3.IntVal(0)))}
        S.prove("three-criteria", sorted(which) == sorted(NAMES[:3]))
        for c, (srt, idx) in which.items():
            S.prove(f"rank-{c}", idx == m)
            thr = srt.at(idx)
            _, pi, inv, at = srt.perm
            S.prove(f"threshold-{c}", S.forall(n, lambda i: S.implies(get(i).get_estimation(c) < thr, lambda: kept(i))))
            S.prove(f"removed-not-better-{c}", S.forall(n, lambda i: S.lor(kept(i), get(i).get_estimation(c) >= thr)))
            S.prove(f"min_len-at-least-as-good-{c}", S.forall(n, lambda i: S.lor(kept(i), S.forall(m + 1, lambda r: srt.at(r) <= get(i).get_estimation(c)))))
            S.prove(f"distinct-best-kept-{c}", S.forall(m, lambda r: S.implies(srt.at(r) < thr, lambda: kept(S.core.SInt(pi(S.core.toz(r)))))))
    else:
        keptset = {k for k, _ in items}
        for c in NAMES[:3]:
            thr = sorted(get(k).get_estimation(c) for k in range(n))[m]
            S.prove(f"threshold-{c}", all(k in keptset for k in range(n) if get(k).get_estimation(c) < thr))
            S.prove(f"min_len-at-least-as-good-{c}", all(sum(get(q).get_estimation(c) <= get(k).get_estimation(c) for q in range(n)) > m for k in range(n) if k not in keptset))


@bounded("C11", [U + "Pruning.__call__", U + "Pruning._prune"], trials=400, conc_s=12, bound="archives of at most 60 points, with ties and infinite losses")
def api_pruning(S):
    r = gen.rs(S)
    par = p.Array(shape=(2,))
    a = utils.Archive()
    n = int(r.randint(1, 60))
    ties = r.rand() < 0.4
    close = not ties and r.rand() < 0.5  # means so close that the confidence bounds order the points in another way than the averages
    snap = {}
    for i in range(n):
        x = r.normal(size=2)
        c = par.spawn_child(new_value=x)
        spread = (float(r.choice([0.0, 0.001, 1.0, 1e4])), float(r.normal()) * 0.03)  # (a single evaluation counts for a variance of 1e6)
        draw = lambda: float(r.randint(0, 5)) if ties else (spread[1] + spread[0] * float(r.normal()) if close else float(r.normal()))  # noqa
        mv = utils.MultiValue(c, spread[1] if close else draw(), reference=par)
        for _ in range(int(r.randint(0, 8 if close else 4)) if r.rand() < 0.5 else 0):
            mv.add_evaluation(draw())
        a[x] = mv
        snap[x.tobytes()] = (mv, dict(mv.__dict__))
    mn = int(r.randint(1, 20))
    mx = mn + int(r.randint(1, 30))
    pr = utils.Pruning(mn, mx)
    order = list(a.bytesdict)
    out = pr(a)
    if n < mx:
        S.prove("untouched", out is a and list(a.bytesdict) == order)
    else:
        crit = ["optimistic", "pessimistic", "average"]
        kept = list(out.bytesdict)
        S.prove("subset", all(k in snap for k in kept) and kept == [k for k in order if k in set(kept)])
        est = {c: {k: v[0].get_estimation(c) for k, v in snap.items()} for c in crit}
        for k in order:
            if k not in out.bytesdict:
                for c in crit:
                    # a removed point is never strictly among the min_len best of a criterion
                    S.prove("not-among-best", sum(e <= est[c][k] for e in est[c].values()) > mn, crit=c)
                S.prove("not-better", not any(all(est[c][k] < est[c][q] for c in crit) for q in kept))
        for c in crit:
            if len(set(est[c].values())) == n:
                best = sorted(order, key=est[c].get)[:mn]
                S.prove("min_len-best-kept", all(k in out.bytesdict for k in best), crit=c, n=n, mn=mn)
        S.prove("size", len(kept) <= 3 * mn, kept=len(kept), mn=mn)
    S.prove("same-objects", all(out.bytesdict[k] is snap[k][0] for k in out.bytesdict))
    S.prove("unaltered", all(v[0].__dict__ == v[1] for v in snap.values()))


class _Map:
    """an arbitrary finite map from keys (what _tobytes gives, equal exactly for vectors of same content) to values"""

    def __init__(self, S):
        import z3
        from ngvc.core import SBool, SInt, toz

        self.z, self.B, self.I, self.toz = z3, SBool, SInt, toz
        self.has, self.val = z3.Array("has", z3.IntSort(), z3.BoolSort()), z3.Array("val", z3.IntSort(), z3.IntSort())

    def __contains__(self, k):
        return bool(self.B(self.z.Select(self.has, self.toz(k))))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.I(self.z.Select(self.val, self.toz(k)))

    def __setitem__(self, k, v):
        self.has, self.val = self.z.Store(self.has, self.toz(k), True), self.z.Store(self.val, self.toz(k), self.toz(v))

    def get(self, k, default=None):
        return self[k] if k in self else default


@contract("C11", [U + "Archive.__setitem__", U + "Archive.__getitem__", U + "Archive.__contains__", U + "Archive.get"], trials=300)
def archive_map(S):
    """whatever the archive holds: writing at a vector is read back at any vector of same content and changes nothing elsewhere; reading what is absent
    raises or gives the default"""
    a = utils.Archive()
    if S.symbolic:
        a.bytesdict = _Map(S)
        x, y, z = S.int("x"), S.int("y"), S.int("z")
        S.patch(utils, "_tobytes", lambda k: k, both=True)
        same = lambda u, v: u == v
    else:
        d = S.choose("d", [1, 2, 3])
        vec = lambda name: np.array([S.choose(f"{name}{i}", [0.0, 1.0, 0.1 + 0.2, 0.3]) for i in range(d)])
        x, y, z = vec("x"), vec("y"), vec("z")
        if S.choose("strided", [False, True]):
            y = np.array([[u, 9.0] for u in y])[:, 0]
        same = lambda u, v: bool((u == v).all())
        for i in range(S.choose("filled", [0, 1, 5])):
            a[vec(f"f{i}_")] = i
    v = S.int("v", 0, 1000)
    was = z in a
    old = a[z] if was else None
    raised = False
    try:
        a[z]
    except KeyError:
        raised = True
    S.prove("absent-raises", raised != was)
    dflt = object()
    S.prove("get-before", (a.get(z) == old and a.get(z, dflt) == old) if was else (a.get(z) is None and a.get(z, dflt) is dflt))
    a[x] = v
    S.prove("written", x in a and a[x] == v and a.get(x, dflt) == v)
    if same(x, y):
        S.prove("by-content", y in a and a[y] == v and a.get(y, dflt) == v)
    if not same(x, z):
        S.prove("elsewhere-unchanged", (z in a) == was and ((a[z] == old and a.get(z, dflt) == old) if was else a.get(z, dflt) is dflt))


@bounded("C11", [U + "Archive.__setitem__", U + "Archive.__getitem__", U + "Archive.__contains__", U + "Archive.get"], trials=200, conc_s=8, bound="sequences of at most 60 operations on vectors of size <= 3")
def api_archive(S):
    """the archive is a map from the content of vectors to values"""
    r = gen.rs(S)
    a, model = utils.Archive(), {}
    d = int(r.randint(1, 4))
    pool = [np.round(r.normal(size=d), 1) for _ in range(6)] + [np.zeros(d)]
    for i in range(int(r.randint(1, 60))):
        x = pool[r.randint(len(pool))]
        x = np.array(x) if r.rand() < 0.5 else np.array(list(x) + [9.0])[:-1]
        k = x.tobytes()
        op = r.randint(4)
        if op == 0:
            a[x] = i
            model[k] = i
            x[0] += 17  # later modifications of the array by its owner do not matter
        elif op == 1:
            S.prove("contains", (x in a) == (k in model))
        elif op == 2:
            S.prove("get", a.get(x, -1) == model.get(k, -1) and a.get(x) == model.get(k))
        else:
            try:
                S.prove("getitem", a[x] == model[k])
            except KeyError:
                S.prove("missing", k not in model)
        S.prove("len", len(a) == len(model))
        S.prove("values", list(a.values()) == list(model.values()))
        S.prove("keys", [x.tobytes() for x in a.keys_as_arrays()] == list(model))
        S.prove("items", [(x.tobytes(), v) for x, v in a.items_as_arrays()] == list(model.items()))
