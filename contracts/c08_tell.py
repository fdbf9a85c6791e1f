"""C08 (accounting of asks and tells), C10 (statistics of repeated evaluations), C22 (sanitized losses), C23 (violations)."""
import math
import pickle
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded
from nevergrad.common import errors
from nevergrad.optimization import base, utils
from nevergrad.optimization.optimizerlib import registry
from nevergrad.parametrization import parameter as p
from contracts import gen

B = "nevergrad.optimization.base:"
U = "nevergrad.optimization.utils:"


class _Opt(base.Optimizer):
    """records what the algorithm is given"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []

    def _internal_ask_candidate(self):
        return self.parametrization.spawn_child()

    def _internal_tell_candidate(self, candidate, loss):
        self.log.append(("asked", candidate.uid, loss))

    def _internal_tell_not_asked(self, candidate, loss):
        self.log.append(("not", candidate.uid, loss))


def _stub(S, budget=None):
    opt = _Opt(p.Array(shape=(2,)), budget=budget)
    rec = []
    S.patch(opt, "_update_archive_and_bests", lambda c, l: rec.append((c, l)), both=True)
    return opt, rec


# ---------------------------------------------------------------------------------------------------- C08
@contract("C08", [B + "Optimizer.suggest", B + "Optimizer.ask", "nevergrad.parametrization.core:Parameter.spawn_child"], trials=150)
def suggestion(S):
    """a suggestion is a child of the parametrization holding the value given, on top of the earlier ones; it is asked next, and changes nothing else"""
    from contracts.c03_stddata import _array, _norandom

    n = S.int("n", 1)
    kind = S.choose("kind", ["array", "dict", "instru"])
    a = _array(S, "init", n)
    root = a if kind == "array" else (p.Dict(x=a, z=12) if kind == "dict" else p.Instrumentation(12, x=a))
    get = {"array": lambda q: q.value, "dict": lambda q: q["x"].value, "instru": lambda q: q[1]["x"].value}[kind]
    _norandom(root)
    opt = _Opt(root, budget=10)
    par = opt.parametrization
    before = get(par)
    earlier = [object() for _ in range(S.choose("earlier", [0, 1, 3]))]
    opt._suggestions.extend(earlier)
    asks, na = [], S.int("num_ask", 0)
    opt._num_ask = na
    x = S.arr("x", n)
    how = S.choose("how", ["fine", "two", "named", "none"])
    try:
        if kind == "instru":
            opt.suggest(12, x=x)
        elif how == "fine":
            opt.suggest(x if kind == "array" else dict(z=12, x=x))
        elif how == "two":
            opt.suggest(x, x)
        elif how == "named":
            opt.suggest(x, x=x)
        else:
            opt.suggest()
    except AssertionError:
        S.prove("only-one-value", kind != "instru" and how != "fine")
        S.prove("refused-adds-nothing", len(opt._suggestions) == len(earlier))
        return
    S.prove("accepted", kind == "instru" or how == "fine")
    S.prove("on-top", len(opt._suggestions) == len(earlier) + 1 and all(u is v for u, v in zip(opt._suggestions, earlier)))
    c = opt._suggestions[-1]
    S.prove("child", c is not par and type(c) is type(par) and c.parents_uids == [par.uid] and c.generation == par.generation + 1 and not c._frozen)
    v = get(c)
    S.prove("value", S.forall(n, lambda i: S.eq(v[i], x[i])))
    w = get(par)
    S.prove("parametrization-kept", S.forall(n, lambda i: S.eq(w[i], before[i])))
    S.prove("not-counted", opt.num_ask == na and not opt._asked)
    S.patch(opt, "_internal_ask_candidate", lambda: asks.append(1), both=True)
    out = opt.ask()
    S.prove("asked-next", out is c and not asks and out._frozen)
    S.prove("ask-counted", opt.num_ask == na + 1)
    S.prove("taken", len(opt._suggestions) == len(earlier) and all(u is v for u, v in zip(opt._suggestions, earlier)))


@contract("C08", [B + "Optimizer.tell", B + "Optimizer.num_tell", B + "Optimizer.num_tell_not_asked"], trials=200)
def tell_counts(S):
    """one tell from any state: exactly one more tell, the candidate is not pending any more, other ones still are"""
    opt, rec = _stub(S)
    nt, nn = S.int("num_tell", 0), S.int("num_not_asked", 0)
    opt._num_tell, opt._num_tell_not_asked = nt, nn
    if S.choose("known_objectives", [True, False]):
        opt._num_objectives = 1
    a, b, o = [opt.parametrization.spawn_child() for _ in range(3)]
    opt._asked = {a.uid, b.uid}
    who = {"a": a, "b": b, "other": o}[S.choose("who", ["a", "b", "other"])]
    loss = S.real("loss", -1e15, 1e15)
    opt.optim_curve = S.choose("curve", [[], [(3, 1.0)]])
    opt.optim_curve = list(opt.optim_curve)
    kind = S.choose("form", ["float", "list"])
    opt.tell(who, loss if kind == "float" else [loss])
    was = who is not o
    S.prove("tells", opt.num_tell == nt + 1)
    S.prove("not-asked", opt.num_tell_not_asked == (nn if was else nn + 1))
    S.prove("pending", opt._asked == {a.uid, b.uid} - {who.uid})
    S.prove("routed-once", len(opt.log) == 1 and opt.log[0][:2] == ("asked" if was else "not", who.uid))
    S.prove("loss-given", S.eq(opt.log[0][2], loss, tol=0))
    S.prove("recorded-once", len(rec) == 1 and rec[0][0] is who)
    S.prove("recorded-loss", S.eq(rec[0][1], loss, tol=0))
    S.prove("loss-on-candidate", S.eq(who.loss, loss, tol=0))
    S.prove("frozen", who._frozen and not opt.parametrization.spawn_child()._frozen)
    S.prove("one-objective", opt.num_objectives == 1)
    S.prove("other-candidates", a.loss is None if who is not a else b.loss is None)


@contract("C08", [B + "Optimizer.tell", B + "Optimizer.num_tell", B + "Optimizer.num_tell_not_asked"], trials=200)
def tell_counts_of_violations(S):
    """one tell from any state of a candidate which violates a constraint (told, or checked), or not: it is accounted for as any other one, and not pending any more"""
    budget = S.int("budget", 1, 10**6) if S.choose("budget_known", [True, False]) else None
    opt, rec = _stub(S, budget)
    nt, nn = S.int("num_tell", 0, 10**6), S.int("num_not_asked", 0, 10**6)
    opt._num_tell, opt._num_tell_not_asked = nt, nn
    a, b, o = [opt.parametrization.spawn_child() for _ in range(3)]
    opt._asked = {a.uid, b.uid}
    who = {"a": a, "other": o}[S.choose("who", ["a", "other"])]
    feasible = S.choose("feasible", [True, False])
    S.patch(who, "satisfies_constraints", lambda *a, **k: feasible)
    S.patch(opt._constraints_manager, "penalty", lambda *a: 7.0)
    loss = S.real("loss", -1e10, 1e10)
    told = S.choose("violation", [None, [0.0], [-1.0], [2.0], [0.0, 3.0], [4.0, -1.0]])
    opt.tell(who, loss, constraint_violation=told, penalty_style=S.choose("style", [None, (1.0, 1.0, 1.0, 1.0, 0.0, 1.0)]))
    was = who is not o
    S.prove("tells", opt.num_tell == nt + 1)
    S.prove("not-asked", opt.num_tell_not_asked == (nn if was else nn + 1))
    S.prove("pending", opt._asked == {a.uid, b.uid} - {who.uid})
    S.prove("routed-once", len(opt.log) == 1 and opt.log[0][:2] == ("asked" if was else "not", who.uid))
    S.prove("not-better-than-told", opt.log[0][2] >= loss)
    S.prove("loss-on-candidate", S.eq(who.loss, loss, tol=0))
    clean = told is None or max(told) <= 0
    S.prove("recorded-at-most-once", len(rec) <= 1 and all(c is who for c, _ in rec))
    if clean and (feasible or budget is None):
        S.prove("as-any-other", len(rec) == 1)
        S.prove("same-loss", S.land(opt.log[0][2] == loss, rec[0][1] == loss))


@contract("C08", [B + "Optimizer.tell"], trials=100)
def told_losses_are_kept(S):
    """the candidate keeps the losses it was told, whatever happens afterwards to the array which was told"""
    opt, rec = _stub(S)
    k = S.choose("objectives", [1, 2, 3])
    told = S.arr("losses", k, -1e10, 1e10)
    if k > 1:
        class Front:
            num_objectives = k

            def extend(self, x, **kw):
                pass

            def add(self, c):
                return 0.0

        S.patch(opt, "_hypervolume_pareto", Front())
    a, b = opt.ask(), opt.ask()
    mine = told.copy()
    opt.tell(a, mine)
    more = S.arr("more", k, -1e10, 1e10)
    mine[:] = more
    opt.tell(b, mine)
    S.prove("first", S.forall(k, lambda i: S.eq(a.losses[i], told[i], tol=0)))
    S.prove("second", S.forall(k, lambda i: S.eq(b.losses[i], more[i], tol=0)))
    mine[:] = told
    S.prove("still", S.forall(k, lambda i: S.eq(b.losses[i], more[i], tol=0)))


@contract("C08", [B + "Optimizer.num_objectives", B + "Optimizer.tell"], trials=100)
def objective_count(S):
    """the number of objectives is fixed by the first one, any other number is refused"""
    opt, _ = _stub(S)
    n, m = S.anyint("n", -2, 6), S.anyint("m", -2, 6)
    ok1 = True
    try:
        opt.num_objectives = n
    except ValueError:
        ok1 = False
    S.prove("positive", S.iff(ok1, n > 0))
    if not ok1:
        S.prove("still-unknown", opt._num_objectives == 0)
        return
    ok2 = True
    try:
        opt.num_objectives = m
    except ValueError:
        ok2 = False
    S.prove("fixed", S.iff(ok2, n == m))
    S.prove("kept", opt.num_objectives == n)


@contract("C08", [B + "Optimizer.tell", B + "Optimizer.register_callback"], trials=60)
def tell_callbacks(S):
    opt, rec = _stub(S)
    got = []
    k = S.choose("callbacks", [0, 1, 2])
    for i in range(k):
        opt.register_callback("tell", lambda o, c, l, i=i: got.append((i, o, c, l, o.num_tell)))
    asks = []
    opt.register_callback("ask", lambda o: asks.append(o.num_ask))
    c = opt.ask()
    loss = S.real("loss", -1e15, 1e15)
    opt.tell(c, loss)
    S.prove("called-in-order", [g[0] for g in got] == list(range(k)) and all(g[1] is opt and g[2] is c and g[4] == 0 for g in got))
    S.prove("same-loss", S.land(*[S.eq(g[3], loss, tol=0) for g in got]) if got else True)
    S.prove("ask-before", asks == [0])
    opt.remove_all_callbacks()
    opt.tell(opt.ask(), loss)
    S.prove("removed", len(got) == k and len(asks) == 1)


# ---------------------------------------------------------------------------------------------------- C10
@contract("C10", [U + "MultiValue.__init__", U + "MultiValue.add_evaluation", U + "MultiValue.get_estimation",
                  U + "MultiValue.optimistic_confidence_bound", U + "MultiValue.pessimistic_confidence_bound"], trials=300)
def one_more_evaluation(S):
    """inductive step: from the statistics of any number of evaluations to the statistics with one more"""
    par = p.Array(shape=(1,))
    first = S.real("first", -1e10, 1e10)
    mv = utils.MultiValue(par, first, reference=par)
    S.prove("init", S.land(mv.count == 1, mv.mean == first, mv.get_estimation("minimum") == first, S.eq(mv.square, first * first)))
    S.prove("init-order", S.land(mv.get_estimation("optimistic") <= first, mv.get_estimation("pessimistic") >= first))
    c = S.size("count", 1, 10**6)
    m, q, mn, y = S.real("mean", -1e10, 1e10), S.real("square", 0, 1e20), S.real("min", -1e10, 1e10), S.real("y", -1e10, 1e10)
    # what holds of the mean, mean square and minimum of any sample
    S.assume(m * m <= q)
    S.assume(mn <= m)
    mv.count, mv.mean, mv.square, mv._minimum = c, m, q, mn
    # Cauchy-Schwarz step, used by the obligations below
    S.prove("lemma", c * (y - m) * (y - m) >= 0)
    mv.add_evaluation(y)
    S.prove("count", mv.count == c + 1)
    S.prove("minimum", S.eq(mv.get_estimation("minimum"), S.ite(y < mn, y, mn), tol=0))
    S.prove("average", S.eq(mv.get_estimation("average"), mv.mean, tol=0))
    S.prove("mean", S.eq((mv.mean * (c + 1) - (c * m + y)) / (1 + S.abs(c * m) + S.abs(y)), 0))
    S.prove("square", S.eq((mv.square * (c + 1) - (c * q + y * y)) / (1 + c * q + y * y), 0))
    S.prove("bounds-order", S.land(mv.get_estimation("optimistic") <= mv.mean, mv.mean <= mv.get_estimation("pessimistic")))


@contract("C10", [U + "MultiValue.add_evaluation"], trials=200)
def variance_nonnegative(S):
    """whatever the (even inconsistent, e.g. rounded) previous statistics, the variance is never negative"""
    par = p.Array(shape=(1,))
    mv = utils.MultiValue(par, 0.0, reference=par)
    mv.count, mv.mean, mv.square, mv._minimum = S.size("count", 1, 10**6), S.real("mean", -1e10, 1e10), S.real("square", -1e20, 1e20), S.real("min", -1e10, 1e10)
    y = S.real("y", -1e12, 1e12)
    mv.add_evaluation(y)
    S.prove("variance", mv.variance >= 0)
    S.prove("square", S.le(mv.mean * mv.mean, mv.square))


@bounded("C10", [U + "MultiValue.add_evaluation", B + "Optimizer._update_archive_and_bests"], trials=300, conc_s=12, bound="at most 30 evaluations of a point, |losses| <= 1e9")
def api_statistics(S):
    r = gen.rs(S)
    n = int(r.randint(1, 31))
    ys = r.normal(size=n) * float(10 ** r.uniform(-3, 8)) + float(r.normal() * 10 ** r.uniform(-2, 3))
    opt = registry["OnePlusOne"](2, budget=100)
    x = r.normal(size=2)
    cands = []
    for i, y in enumerate(ys):
        c = opt.parametrization.spawn_child(new_value=x)
        cands.append(c)
        opt.tell(c, float(y))
        mv = opt.archive[c.get_standardized_data(reference=opt.parametrization)]
        z = ys[: i + 1]
        sc = max(1e-12, float(np.max(abs(z))))
        S.prove("one-entry", len(opt.archive) == 1 and mv.count == i + 1)
        S.prove("mean", abs(mv.mean - z.mean()) <= 1e-9 * sc, ys=z)
        S.prove("minimum", mv.get_estimation("minimum") == z.min())
        S.prove("square", abs(mv.square - np.mean(z**2)) <= 1e-9 * sc**2)
        if i:
            want = np.sqrt((i + 1) / i) * z.var()
            S.prove("variance", abs(mv.variance - want) <= 1e-7 * sc**2, got=mv.variance, want=want)
        else:
            S.prove("first-variance", mv.variance == 1e6)
        half = 0.1 * np.sqrt(mv.variance / (mv.count + 1))
        S.prove("bounds", abs(mv.get_estimation("optimistic") - (mv.mean - half)) <= 1e-9 * sc and abs(mv.get_estimation("pessimistic") - (mv.mean + half)) <= 1e-9 * sc)
        S.prove("best-candidate-kept", mv.parameter is cands[int(np.argmin(z))])
    try:
        mv.get_estimation("unknown")
        S.fail("unknown-estimation")
    except NotImplementedError:
        pass


# ---------------------------------------------------------------------------------------------------- C22
@contract("C22", [B + "Optimizer.tell"], trials=300, note="IEEE doubles")
def sanitized_loss(S):
    """for every double: nan, +inf and values above 5e20 become 5e20, anything else is kept as it is"""
    opt, rec = _stub(S)
    c = opt.ask()
    x = S.fp("loss")
    opt.tell(c, x)
    small = x < 5.0e20
    got = [opt.log[0][2], c.loss, rec[0][1]]
    S.prove("everywhere", len(opt.log) == 1 and len(rec) == 1)
    for i, g in enumerate(got):
        S.prove(f"kept{i}", S.implies(small, lambda: g == x))
        S.prove(f"clipped{i}", S.implies(S.lnot(small), lambda: g == 5.0e20))
        S.prove(f"never-nan{i}", g == g)
        S.prove(f"never-above{i}", g <= 5.0e20)


@contract("C22", [B + "Optimizer.tell"], trials=60)
def refused_losses(S):
    """what is not a loss is refused, before anything is recorded"""
    opt, rec = _stub(S)
    c = opt.ask()
    bad = S.choose("bad", ["a string", None, {"a": 1}, lambda: 1, 1j])
    try:
        opt.tell(c, bad)
        S.fail("accepted", bad=repr(bad))
    except TypeError:
        pass
    S.prove("nothing-recorded", opt.num_tell == 0 and not rec and not opt.log and opt.num_objectives == 0 and c.loss is None and c.uid in opt._asked)
    try:
        opt.tell(S.choose("nocand", [np.zeros(2), [0.0, 1.0], None]), 1.0)
        S.fail("accepted-candidate")
    except TypeError:
        pass
    S.prove("nothing-recorded-2", opt.num_tell == 0 and not rec and not opt.log)


@bounded("C22", [B + "Optimizer.tell", B + "Optimizer.recommend"], trials=200, conc_s=12, bound="6 optimizers, <= 15 tells, scalar types of python and numpy")
def api_loss_types(S):
    r = gen.rs(S)
    name = ["OnePlusOne", "DE", "CMA", "PSO", "RandomSearch", "TwoPointsDE", "NGOpt"][r.randint(7)]
    opt = registry[name](2, budget=20)
    opt.parametrization.random_state.seed(int(r.randint(2**31)))
    seen = []
    for _ in range(int(r.randint(2, 16))):
        c = opt.ask()
        v = [float(r.normal()), np.nan, np.inf, 1e25, 5.0e20, float(r.uniform(-1e5, 1e5)), 4e9][r.randint(7)]
        ok = v < 5e20
        forms = [v, np.float64(v), np.array(v), [v], (v,), np.array([v]), np.array([[v]])]
        if ok:
            forms += [np.float32(v), int(v), np.int64(v), bool(v > 0), np.bool_(v > 0)][:4]
        f = forms[r.randint(len(forms))]
        want = float(np.ravel(f)[0]) if ok else 5.0e20
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            first = errors.LossTooLargeWarning not in opt._sent_warnings
            opt.tell(c, f)
        S.prove("stored", isinstance(c.loss, float) and c.loss == want, given=repr(f), stored=c.loss)
        S.prove("warned-once", any(isinstance(w.message, errors.LossTooLargeWarning) for w in ws) == (not ok and first), given=repr(f))
        S.prove("single-objective", opt.num_objectives == 1)
        mv = opt.archive[c.get_standardized_data(reference=opt.parametrization)]
        S.prove("archived", np.isfinite(mv.mean))
        seen.append((want, c))
    best = min(w for w, _ in seen)
    S.prove("best", opt.current_bests["minimum"].get_estimation("minimum") <= best)
    S.prove("finite-recommendation", bool(np.all(np.isfinite(opt.recommend().value))))


# ---------------------------------------------------------------------------------------------------- C23
@contract("C23", [U + "ConstraintManager.penalty", "nevergrad.parametrization.utils:float_penalty"], trials=200)
def penalty_value(S):
    """nonnegative, and positive exactly when one check is violated"""
    cm = utils.ConstraintManager()
    par = p.Array(shape=(1,))
    k = S.choose("k", [1, 2, 3])
    bad = []
    for i in range(k):
        if S.choose(f"kind{i}", ["bool", "float"]) == "bool":
            v = bool(S.bool(f"b{i}"))
            bad.append(not v)
        else:
            v = S.real(f"f{i}", -1e6, 1e6)
            bad.append(v < -1e-6)
            S.assume(S.lor(v >= 0, v < -1e-6))
        par._constraint_checkers.append(_const(v))
    fac = S.real("factor", 1e-3, 1e3)
    cm.penalty_factor = fac
    pen = cm.penalty(par, S.size("num_ask", 0, 1000), S.choose("budget", [None, 100]))
    S.prove("nonnegative", pen >= 0)
    S.prove("positive-iff-violated", S.iff(pen > 0, S.lor(*bad)))


def _const(v):
    def check(val):
        return v

    return check


@contract("C23", [B + "Optimizer.tell", U + "ConstraintManager.penalty"], trials=200)
def violators_are_not_recorded(S):
    """known budget: a candidate violating a registered constraint never enters the records, and the algorithm sees a
    higher loss"""
    opt, rec = _stub(S, budget=100)
    v = S.real("check", -1e6, 1e6)
    S.assume(S.lor(v >= 0, v < -1e-6))
    opt.parametrization._constraint_checkers.append(_const(v))
    c = opt.parametrization.spawn_child()
    asked = S.choose("asked", [True, False])
    if asked:
        opt._asked.add(c.uid)
    loss = S.real("loss", -1e6, 1e6)
    opt._num_ask = S.size("num_ask", 0, 1000)
    opt._num_objectives = S.choose("objectives", [0, 1])
    opt.tell(c, loss)
    bad = bool(v < 0)
    S.prove("recorded-iff-satisfied", len(rec) == (0 if bad else 1))
    S.prove("seen-once", len(opt.log) == 1 and opt.log[0][0] == ("asked" if asked else "not"))
    S.prove("penalized", opt.log[0][2] > loss if bad else S.eq(opt.log[0][2], loss, tol=0))
    S.prove("loss-of-candidate", S.eq(c.loss, loss, tol=0))
    S.prove("counted", opt.num_tell == 1 and not opt._asked)


@contract("C23", [B + "Optimizer.tell"], trials=200)
def violation_argument(S):
    """any positive entry of the violation vector: not recorded, and never a lower loss; otherwise the loss is unchanged"""
    opt, rec = _stub(S, budget=S.choose("budget", [None, 10]))
    n = S.choose("n", [1, 2, 3])
    nt = S.size("num_tell", 0, 1000)
    opt._num_tell = nt
    cv = [S.real(f"cv{i}", -1e6, 1e6) for i in range(n)]
    for x in cv:
        S.assume(S.lor(x <= 0, x > 1e-6))
    loss = S.real("loss", -1e6, 1e6)
    c = opt.ask()
    default = S.choose("style", ["default", "given"]) == "default"
    if default:
        opt.tell(c, loss, S.array(cv))
    else:
        opt.tell(c, loss, S.array(cv), [S.real("a", 0, 1e6), S.real("b", 0, 1e3), 0.5, 1.0, 0.5, 1.0])
    bad = S.lor(*[x > 0 for x in cv])
    bad = bool(bad)
    S.prove("recorded-iff-satisfied", len(rec) == (0 if bad else 1))
    seen = opt.log[0][2]
    S.prove("never-lower", S.le(loss, seen))
    if not bad:
        S.prove("unchanged", S.eq(seen, loss, tol=0))
    elif default:
        S.prove("higher", S.implies(loss > 1e-3, lambda: seen > loss))
    S.prove("counted", S.land(opt.num_tell == nt + 1, len(opt.log) == 1, not opt._asked))
