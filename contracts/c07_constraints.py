"""C07: constraints decide which candidates are sent out, and the tabu memory is an exact circular buffer."""
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded
from ngvc.seq import Inv
from nevergrad.common import errors
from nevergrad.ops.constraints import Constraint
from nevergrad.optimization import base, utils
from nevergrad.optimization.optimizerlib import registry
from nevergrad.parametrization import parameter as p
from nevergrad.parametrization import utils as putils
from contracts import gen

K = "nevergrad.parametrization.core:"
B = "nevergrad.optimization.base:"


class _SetModel:
    """contract of a set restricted to what the buffer needs: membership, add, remove (KeyError when absent)"""

    def __init__(self, S, member):
        self.S, self.m = S, member

    def __contains__(self, x):
        return bool(self.m(x))

    def add(self, x):
        m, S = self.m, self.S
        self.m = lambda y: S.lor(m(y), S.eq(y, x, tol=0))

    def remove(self, x):
        m, S = self.m, self.S
        if not m(x):
            raise KeyError(x)
        self.m = lambda y: S.land(m(y), S.lnot(S.eq(y, x, tol=0)))


@contract("C07", [K + "Parameter.satisfies_constraints"], trials=200)
def tabu_buffer(S):
    """one step from any reachable state of the memory (any length, any content)"""
    L = S.size("L", 1, 50)
    full = S.choose("full", [True, False])
    m = L if full else S.size("m", 0, 50)
    if not full:
        S.assume(m < L)
    index = S.size("index", 0, 50)
    S.assume(index < L if full else index == m)
    keys = S.anyints("keys", m, -60, 60)
    S.assume(S.forall(m, lambda i: S.forall(m, lambda j: S.implies(i != j, lambda: S.lnot(S.eq(S.at(keys, i), S.at(keys, j), tol=0))))))
    ref = p.Array(shape=(2,))
    cand = p.Array(shape=(2,))
    v = S.anyint("v", -60, 60)
    old = keys if S.symbolic else list(keys)
    if S.symbolic:
        old = S.seqof(m, lambda i: S.at(keys, i))
    ref.tabu_length, ref.tabu_list, ref.tabu_index = L, keys, index
    ref.tabu_set = _SetModel(S, lambda y: S.exists(m, lambda i: S.eq(S.at(old, i), y, tol=0))) if S.symbolic else set(keys)
    fails = S.size("fails", 0, 40)
    cand.tabu_fails = fails
    cand.tabu_congruence = lambda val: v
    known = S.exists(m, lambda i: S.eq(S.at(old, i), v, tol=0))
    known = bool(known)
    out = cand.satisfies_constraints(ref)
    skipped = bool(fails >= 30)
    S.prove("answer", bool(out) == (skipped or not known))
    new, idx = ref.tabu_list, ref.tabu_index
    has = (lambda y: ref.tabu_set.m(y)) if S.symbolic else (lambda y: y in ref.tabu_set)
    if skipped or known:
        S.prove("unchanged", S.land(S.len(new) == m, idx == index, S.forall(m, lambda i: S.eq(S.at(new, i), S.at(old, i), tol=0))))
        S.prove("fail-count", cand.tabu_fails == (fails if skipped else fails + 1))
        return
    n2 = S.len(new)
    S.prove("bounded", n2 <= L)
    S.prove("length", n2 == (m if full else m + 1))
    S.prove("recorded", S.eq(S.at(new, index), v, tol=0))
    S.prove("others-kept", S.forall(m, lambda i: S.implies(i != index, lambda: S.eq(S.at(new, i), S.at(old, i), tol=0))))
    S.prove("next-index", idx == (index + 1 if bool(index + 1 < L) else 0))
    S.prove("set-has-list", S.forall(n2, lambda i: has(S.at(new, i))))
    y = S.anyint("y", -60, 60)
    S.prove("list-has-set", S.implies(has(y), lambda: S.exists(n2, lambda i: S.eq(S.at(new, i), y, tol=0))))
    S.prove("distinct", S.forall(n2, lambda i: S.forall(n2, lambda j: S.implies(i != j, lambda: S.lnot(S.eq(S.at(new, i), S.at(new, j), tol=0))))))


@contract("C07", [K + "Parameter.satisfies_constraints", K + "Parameter.can_skip_constraints", "nevergrad.parametrization.utils:float_penalty"], trials=200)
def checkers_decide(S):
    """no tabu memory: satisfied exactly when every registered check passes, on the node and on the nodes below"""
    x, y = p.Scalar(), p.Array(shape=(2,))
    root = p.Dict(x=x, y=y)
    outs = {}
    for name, node in [("r", root), ("x", x), ("y", y)]:
        k = S.choose("n" + name, [0, 1, 2] if name == "r" else [0, 1])
        for i in range(k):
            kind = S.choose(f"kind{name}{i}", ["bool", "float"])
            v = S.bool(f"b{name}{i}") if kind == "bool" else S.real(f"f{name}{i}")
            outs[name, i] = bool(v) if kind == "bool" else bool(v >= 0)
            node._constraint_checkers.append(_const(bool(v) if kind == "bool" else v))
    ref = S.choose("ref", [None, root])
    S.prove("all-checks", bool(root.satisfies_constraints(ref)) == all(outs.values()))
    S.prove("skip-only-without-checks", bool(root.can_skip_constraints(ref)) == (not outs))


def _const(v):
    def check(val):
        return v

    return check


@contract("C07", ["nevergrad.parametrization.utils:float_penalty"], trials=100)
def penalty_sign(S):
    v = S.real("v")
    S.prove("float", S.land(putils.float_penalty(v) >= 0, S.iff(putils.float_penalty(v) > 0, v < 0)))
    b = S.bool("b")
    S.prove("bool", S.iff(putils.float_penalty(bool(b)) > 0, S.lnot(b)))


class _Opt(base.Optimizer):
    def _internal_ask_candidate(self):
        return self.parametrization.spawn_child()


@contract("C07", ["nevergrad.parametrization.data:Data.set_bounds", "nevergrad.parametrization.utils:BoundChecker.__call__", K + "Parameter.register_cheap_constraint",
                  K + "Parameter.satisfies_constraints", "nevergrad.parametrization._datalayers:BoundLayer.__call__"], trials=150)
def bounds_as_constraint(S):
    """with bounds given as a constraint, a value satisfies the constraints exactly when each coordinate is within both bounds"""
    from contracts.c03_stddata import _array

    n = S.int("n", 1)
    par = _array(S, "init", n)
    given = S.choose("given", ["both", "lower", "upper"])
    lo = S.real("lo", -50, 50) if given != "upper" else None
    hi = S.real("hi", -50, 50) if given != "lower" else None
    if given == "both":
        S.assume(hi - lo > 0.1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = par.set_bounds(lo, hi, method="constraint")
    S.prove("same-object", out is par)
    x = S.arr("x", n, -60, 60)
    par.value = x
    v = par.value
    S.prove("value-kept", S.forall(n, lambda i: S.eq(v[i], x[i])))
    inside = S.forall(n, lambda i: S.land(True if lo is None else lo <= x[i], True if hi is None else x[i] <= hi))
    S.prove("decided-by-the-bounds", S.iff(par.satisfies_constraints(), inside))
    other = par.copy()
    S.prove("copies-are-constrained", S.iff(other.satisfies_constraints(), inside))


@contract("C07", [K + "Parameter.register_cheap_constraint", K + "Parameter.satisfies_constraints", K + "Parameter.specify_tabu_length"], trials=150)
def registered(S):
    """each registered constraint counts, in addition to those which were already there, for the parameter and for the copies made later; a sub-parameter constrains its container"""
    root = p.Dict(x=p.Array(shape=(2,)), y=p.Scalar())
    k = S.size("k", 0, 5) if not S.symbolic else S.choose("k", [0, 1, 2, 3])
    outs = []
    for i in range(k):
        target = S.choose(f"target{i}", ["root", "x"])
        v = S.real(f"v{i}")
        (root if target == "root" else root["x"]).register_cheap_constraint(_const(v))
        outs.append(v)
    S.prove("all-count", S.iff(root.satisfies_constraints(), S.land(*[v >= 0 for v in outs]) if outs else True))
    S.prove("copy", S.iff(root.copy().satisfies_constraints(), S.land(*[v >= 0 for v in outs]) if outs else True))
    L = S.size("length", 0, 9)
    root.specify_tabu_length(L)
    S.prove("length", root.tabu_length == L)


@bounded("C07", [B + "_constraint_solver"], trials=80, conc_s=8, bound="dimension 2, at most 60 evaluations, half-space and ball constraints")
def solver_on_copies(S):
    """the solver works on copies: the candidate which it gets is left as it is, with its constraints, and the one which it returns is under the same constraints"""
    r = gen.rs(S)
    thr = float(r.uniform(-1.0, 1.0))
    par = p.Array(shape=(2,))
    par.random_state.seed(int(r.randint(2**31)))
    par.register_cheap_constraint(_Half(thr))
    par.specify_tabu_length(int(r.choice([0, 3])))
    c = par.spawn_child(new_value=np.array([thr - float(r.uniform(0.1, 2)), float(r.normal())]))
    before = (c.value.copy(), c.uid, c.generation, list(c._constraint_checkers), c.tabu_length, dict(c.heritage))
    par0 = (par.value.copy(), list(par._constraint_checkers), par.tabu_length)
    out = base._constraint_solver(c, budget=60)
    S.prove("candidate-kept", (c.value == before[0]).all() and (c.uid, c.generation, c.tabu_length) == (before[1], before[2], before[4]))
    S.prove("constraints-kept", c._constraint_checkers == before[3] and par._constraint_checkers == par0[1] and par.tabu_length == par0[2] and (par.value == par0[0]).all())
    S.prove("another-candidate", out is not c and out.uid != c.uid)
    S.prove("still-constrained", len(out._constraint_checkers) == 1 and out.satisfies_constraints() == bool(out.value[0] >= thr))


class _Half:
    def __init__(self, thr):
        self.thr = thr

    def __call__(self, v):
        return float(v[0] - self.thr)


@contract("C07", [B + "Optimizer.ask"], trials=200, note="the number of tentatives is a constant of the loop: 1 to 3 here (500 by default)")
def ask_retries(S):
    """ask sends the first candidate which satisfies the constraints, else the best effort with one warning; exactly one
    ask is counted whatever the number of tentatives"""
    opt = _Opt(p.Array(shape=(2,)), budget=10)
    mt = S.choose("max_trials", [2, 4, 6])
    opt._constraints_manager.max_trials = mt
    na = S.int("num_ask", 0)
    opt._num_ask = na
    made, warned, told = [], [], []
    S.patch(opt, "_warn", lambda msg, e: warned.append(e), both=True)
    tabu = S.choose("tabu", [0, 5])
    opt.parametrization.tabu_length = tabu
    verdict = {}
    n_sug = S.choose("suggestions", [0, 1, 2])
    class Feas(dict):
        def __missing__(self, i):
            self[i] = bool(S.bool(f"ok{i}"))
            return self[i]

    feas = Feas()

    class Cand:
        def __init__(self, i):
            self.i, self.uid, self.frozen, self.read = i, f"u{i}", False, 0

        def satisfies_constraints(self, ref=None, no_tabu=False):
            return feas[self.i]

        def can_skip_constraints(self, ref=None):
            return False

        value = property(lambda s: 0)

        def freeze(self):
            self.frozen = True

    def make():
        made.append(Cand(len(made)))
        return made[-1]

    S.patch(opt, "_internal_ask_candidate", make, both=True)
    pen = S.choose("penalize", [True, False])
    opt._penalize_cheap_violations = pen
    S.patch(opt, "_internal_tell_candidate", lambda c, l: told.append((c, l)), both=True)
    solver = Cand(4)

    def solve(c, budget):
        return solver

    S.patch(base, "_constraint_solver", solve, both=True)
    sugs = []
    for i in range(n_sug):
        sugs.append(Cand(3))
        sugs[-1].uid = f"s{i}"
    opt._suggestions.extend(sugs)
    out = opt.ask()
    trials = mt // 2
    seq = (list(reversed(sugs)) + made)[:trials]
    used = next((k + 1 for k, c in enumerate(seq) if feas[c.i]), trials)
    S.prove("tentatives", len(made) == max(0, used - n_sug))
    seq = seq[:used]
    good = [c for c in seq if feas[c.i]]
    S.prove("counted-once", opt.num_ask == na + 1)
    S.prove("frozen", out.frozen)
    if good:
        S.prove("first-feasible", out is good[0])
        S.prove("no-warning", not warned)
    else:
        S.prove("solver-when-no-tabu", out is solver if tabu == 0 else out is seq[-1])
        S.prove("warned", bool(warned) == (not feas[out.i]) and all(e is errors.FailedConstraintWarning for e in warned))
    S.prove("suggestions-lifo", list(opt._suggestions) == sugs[: max(0, n_sug - used)])
    S.prove("asked", (out.uid in opt._asked) == (out not in sugs and not (out is solver and seq[-1] in sugs)))
    rejected = [c for c in seq if c is not out or not feas[c.i]]
    S.prove("penalized", [c for c, _ in told] == (([c for c in seq if not feas[c.i]]) if pen else []))


def _ask_inv(S):
    g = S.ghost = _Asks(S)

    def havoc(st):
        g.opt._num_ask, g.left, g.made, g.told = (S.int(f"{nm}{len(S.c.inputs)}", 0) for nm in ("hask", "hleft", "hmade", "htold"))
        return {"candidate": _Tentative(g, S.int(f"hcand{len(S.c.inputs)}", 0)), "is_suggestion": S.bool(f"hsug{len(S.c.inputs)}")}

    def inv(st, k):
        st["self"]._num_ask
        c = st.get("candidate")
        if not isinstance(c, _Tentative):
            before = k == 0
        else:
            before = S.lor(k == 0, S.land(c.i == k - 1, S.lnot(g.ok(k - 1)), S.iff(st["is_suggestion"], k - 1 < g.s0)))
        pop = S.ite(k < g.s0, k, g.s0)
        return S.land(before, g.opt._num_ask == g.na + k, g.left == g.s0 - pop, g.made == k - pop, g.told == (k if g.penalize else 0))

    return {B + "Optimizer.ask#1": Inv(inv, havoc, name="tentatives")}


class _Tentative:
    """the i-th candidate which is considered: the suggestions, last one first, then the candidates of the algorithm"""

    def __init__(self, g, i):
        self.g, self.i, self.frozen, self.uid, self.value = g, i, False, ("uid", g, i), 0.0

    def satisfies_constraints(self, ref=None, no_tabu=False):
        self.g.S.prove("checked-with-the-memory", no_tabu or ref is self.g.opt.parametrization)
        return self.g.solved if self is self.g.solver else self.g.ok(self.i)

    def can_skip_constraints(self, ref=None):
        return self.g.skippable

    def freeze(self):
        self.frozen = True


class _Asks:
    """ghost state: s0 suggestions at first, left of them now, made candidates of the algorithm, told of them with an infinite loss"""

    def __init__(self, S):
        self.S, self.made, self.told, self.added, self.refused, self.last, self.solver, self.cache = S, 0, 0, [], False, None, None, {}

    def ok(self, i):
        if self.S.symbolic:
            return self.feasible(i)
        return self.feasible(int(i))

    def __bool__(self):
        return bool(self.left > 0)

    def __len__(self):
        return self.left

    def pop(self):
        self.S.prove("not-empty", self.left > 0)
        self.last = _Tentative(self, self.s0 - self.left)
        self.left = self.left - 1
        return self.last

    def make(self):
        self.last = _Tentative(self, self.s0 + self.made)
        self.made = self.made + 1
        return self.last

    def add(self, uid):
        self.added.append(uid)

    def __contains__(self, uid):
        return self.already


@contract("C07", [B + "Optimizer.ask"], trials=300, invariants=_ask_inv, also=("C08",))
def ask_any_tentatives(S):
    """any number of tentatives and of suggestions: the suggestions are used last in first out, then the algorithm is asked, up to the first candidate which
    satisfies the constraints; without any, the best effort is sent with a warning; one ask is counted, and the uid is recorded unless it is a suggestion"""
    if not S.symbolic:
        S.ghost = _Asks(S)
    g = S.ghost
    opt = _Opt(p.Array(shape=(2,)), budget=10)
    g.opt = opt
    if S.symbolic:
        from ngvc.core import SBool, toz
        import z3

        f = z3.Function("feasible", z3.IntSort(), z3.BoolSort())
        g.feasible = lambda i: SBool(f(toz(i)))
    else:
        share = S.choose("share", [0, 1, 2, 5])
        g.feasible = lambda i: g.cache[i] if i in g.cache else g.cache.setdefault(i, bool(S.choose(f"ok{i}", [True] + [False] * share)))
    mt = S.size("max_trials", 0, 12)
    opt._constraints_manager.max_trials = mt
    trials = S.ite(mt // 2 > 1, mt // 2, 1)
    g.na = S.int("num_ask", 0)
    opt._num_ask = g.na
    g.s0 = g.left = S.size("suggestions", 0, 6)
    opt._suggestions = opt._asked = g
    g.skippable, g.already, g.solved = S.bool("skippable"), S.choose("already", [False, True]), S.choose("solved", [False, True])
    skip = opt.skip_constraints = S.choose("skip", [False, True])
    g.penalize = opt._penalize_cheap_violations = S.choose("penalize", [False, True])
    opt.parametrization.tabu_length = S.choose("tabu", [0, 5])
    warned, calls = [], []
    opt.register_callback("ask", lambda o: calls.append((o, opt._num_ask)))
    S.patch(opt, "_internal_ask_candidate", g.make, both=True)
    S.patch(opt, "_warn", lambda msg, e: warned.append(e), both=True)

    def tell(c, loss):
        S.prove("only-the-refused-is-told", S.land(c is g.last, S.lnot(g.ok(c.i)), loss == float("inf")))
        g.told = g.told + 1

    def solve(c, budget):
        S.prove("solver-on-the-last", c is g.last or c.i == g.used - 1)
        g.solver = _Tentative(g, -1)
        return g.solver

    S.patch(opt, "_internal_tell_candidate", tell, both=True)
    S.patch(base, "_constraint_solver", solve, both=True)
    direct = skip and bool(g.s0 == 0)
    g.used = 1 if direct else trials
    try:
        out = opt.ask()
    except RuntimeError as e:
        S.prove("already-sent", g.already and "same candidate twice" in str(e) and not g.added)
        return
    S.prove("callback-first", len(calls) == 1 and calls[0][0] is opt and calls[0][1] is g.na if S.symbolic else calls == [(opt, g.na)])
    used = (g.s0 - g.left) + g.made
    S.prove("counted-once", opt.num_ask == g.na + 1)
    S.prove("frozen", out.frozen)
    S.prove("at-least-one", S.land(used >= 1, used <= g.used))
    good = g.ok(used - 1)
    if out is g.solver:
        S.prove("solver-only-without-success", S.lnot(good))
        S.prove("all-tentatives", used == g.used)
        S.prove("warned", (warned == [errors.FailedConstraintWarning]) == (not g.solved) and len(warned) <= 1)
    else:
        S.prove("last-tentative", out.i == used - 1)
        S.prove("solved-when-possible", S.lor(good, opt.parametrization.tabu_length != 0))
        S.prove("all-tentatives", S.lor(good, used == g.used))
        S.prove("warned", S.iff(len(warned) == 0, good))
    S.prove("suggestions-first", S.lor(g.left == 0, g.made == 0))
    S.prove("refused-are-told", g.told == (0 if not g.penalize or direct else S.ite(good, used - 1, used)))
    S.prove("uid-recorded", S.iff(len(g.added) == 1, used > g.s0) and len(g.added) <= 1 and (not g.added or g.added[0] is out.uid))


OC = "nevergrad.ops.constraints:Constraint."


class _Root:
    """a parameter below a constraint: an abstract value"""

    dimension = 3

    def __init__(self, value):
        self.value, self.args, self.kwargs, self.log = value, (value,), {"tag": 12}, []

    def set_standardized_data(self, data, reference=None):
        self.log.append((np.array(data), reference))
        return self


@contract("C07", [OC + "_layered_get_value", OC + "function", OC + "apply_constraint", OC + "stopping_criterion", OC + "_layered_del_value", OC + "__init__"], trials=200)
def constraint_layer(S):
    """reading through a constraint: the value itself if the function is nowhere positive on it, otherwise the best one found by the algorithm (the root is then moved
    to it); it is read once and kept until the value is deleted; the search is stopped exactly when its best point satisfies the constraint"""
    from nevergrad.ops import constraints as oc

    nout = S.size("n_outputs", 1, 3)
    vector = S.choose("vector", [True, False])
    calls, made = [], []
    out = S.arr("outputs", nout, -3, 3) if vector else S.real("output", -3, 3)

    def func(*args, **kwargs):
        calls.append((args, kwargs))
        return out

    lay = oc.Constraint(func, optimizer="OnePlusOne", budget=7)
    root, inner, found = _Root("root"), _Root("inner"), _Root("found")
    lay._layers = [root, lay]
    S.patch(lay, "parameter", lambda: inner, both=True)
    clip = lay.function(1, a=2)
    S.prove("function-called", len(calls) == 1 and calls[0][0] == (1,) and calls[0][1] == {"a": 2})
    if vector:
        S.prove("clipped", S.forall(nout, lambda i: S.eq(clip[i], S.ite(out[i] > 0, out[i], 0.0))))
        ok = S.forall(nout, lambda i: out[i] <= 0)
    else:
        S.prove("clipped", S.eq(clip, S.ite(out > 0, out, 0.0)))
        ok = out <= 0
    boolean = oc.Constraint(lambda x: True, optimizer="OnePlusOne")
    refused = False
    try:
        boolean.function(1)
    except TypeError:
        refused = True
    S.prove("booleans-refused", refused)

    class Opt:
        def __init__(self, parameter, budget=None):
            made.append(self)
            self.parameter, self.budget, self.callbacks, self.target, self.num_tell = parameter, budget, [], None, 0

        def register_callback(self, name, cb):
            self.callbacks.append((name, cb))

        def minimize(self, f):
            self.target = f

        def pareto_front(self):
            return [found]

    lay._opt_cls = Opt
    first = lay._layered_get_value()
    again = lay._layered_get_value()
    S.prove("kept", again is first)
    S.prove("tested-once", len(calls) == 2 and calls[1][0] == ("inner",) and calls[1][1] == {"tag": 12})
    if made:
        S.prove("search-only-if-violated", S.lnot(ok))
        o = made[0]
        S.prove("one-search", len(made) == 1 and o.parameter is inner and o.budget == 7 and len(o.callbacks) == 1 and o.callbacks[0][0] == "ask")
        S.prove("on-the-function", o.target == lay.function)
        S.prove("best-found", first == "found")
        S.prove("root-moved-to-it", len(root.log) == 1 and root.log[0][1] is found and not np.any(root.log[0][0]) and root.log[0][0].size == 3)
        found.losses = S.arr("losses", nout, 0, 3) if S.symbolic else np.maximum(0, S.arr("losses", nout, -3, 3))
        o.num_tell = S.int("num_tell", 0, 3)
        stop = lay.stopping_criterion(o)
        S.prove("stops-when-satisfied", S.iff(stop, S.land(o.num_tell >= 1, S.forall(nout, lambda i: found.losses[i] <= 0))))
    else:
        S.prove("value-if-satisfied", S.land(ok, first == "inner"))
        S.prove("root-kept", root.log == [])
    lay._layered_del_value()
    lay._layered_get_value()
    S.prove("read-again-once-deleted", len(calls) == 3)


def _solver_inv(S):
    def havoc(st):
        g = S.ghost
        g.asked = S.int(f"hasked{len(S.c.inputs)}", 0)
        g.told = g.asked
        return {}

    def inv(st, k):
        g = S.ghost
        return S.land(g.asked == k, g.told == k, S.forall(g.asked, lambda i: S.lnot(g.ok(i))))

    return {B + "_constraint_solver#0": Inv(inv, havoc, name="solver-steps")}


class _Solved:
    """ghost state of the solver: candidate i satisfies the constraints if ok(i)"""


@contract("C07", [B + "_constraint_solver"], trials=200, invariants=_solver_inv)
def solver(S):
    """any budget: the solver works on a copy without constraint, asks up to the first candidate which satisfies the constraints (or to the budget), tells each of them
    with a loss below 1 if it satisfies them and above 1 otherwise, and gives a child of the parameter at the data of the recommendation"""
    g = S.ghost = _Solved()
    budget = S.size("budget", 1, 6)
    g.asked = g.told = 0
    par = p.Array(shape=(2,))
    n = S.int("n_checks", 1, 3) if not S.symbolic else 2
    if S.symbolic:
        import z3
        from ngvc.core import SBool, toz, wrapz

        vio = z3.Function("violation", z3.IntSort(), z3.IntSort(), z3.RealSort())
        g.violation = lambda j, i: wrapz(vio(toz(j), toz(i)))
        sq = z3.Function("coordinate", z3.IntSort(), z3.RealSort())
        g.coord = lambda i: wrapz(sq(toz(i)))
    else:
        tab = {}
        g.violation = lambda j, i: tab[j, i] if (j, i) in tab else tab.setdefault((j, i), S.choose(f"v{j}_{i}", [0.0, 1.0, 1.0, -0.5, -2.0]))
        g.coord = lambda i: tab["x", i] if ("x", i) in tab else tab.setdefault(("x", i), S.choose(f"x{i}", [0.0, 0.3, 3.0]))
    g.ok = lambda i: S.land(*[g.violation(j, i) >= 0 for j in range(n)])
    checks = [lambda v, j=j: g.violation(j, v.i) for j in range(n)]
    par._constraint_checkers.extend(checks)
    par.tabu_length = 3
    made = []

    class Cand:
        def __init__(self, i):
            self.i, self.value = i, self

        def get_standardized_data(self, reference=None):
            S.prove("distance-to-the-parameter", reference is par)
            return g.coord(self.i)  # (one dimension)

    class Rec:
        def get_standardized_data(self, reference=None):
            S.prove("recommended-data", reference is made[0].param)
            return "data"

    class Opt:
        def __init__(self, param, num_workers=1, budget=None):
            made.append(self)
            self.param, self.budget = param, budget
            S.prove("copy-without-constraint", param is not par and param._constraint_checkers == [] and param.tabu_length == 0)

        def ask(self):
            g.asked = g.asked + 1
            return Cand(g.asked - 1)

        def tell(self, c, loss):
            S.prove("told-in-order", c.i == g.told)
            g.told = g.told + 1
            S.prove("loss", S.land(loss >= 0, S.ite(g.ok(c.i), loss <= 1, loss > 1)))

        def recommend(self):
            return Rec()

    def tanh(x):
        S.prove("distance-nonnegative", x >= 0)
        y = S.draw("tanh")
        S.assume(S.land(y >= 0, y <= 1))
        return y

    if S.symbolic:
        S.trusted("tanh of a nonnegative number is in [0, 1]")
        S.patch(base.np, "tanh", tanh)
    fake = {"OnePlusOne": Opt}
    S.patch(base, "registry", fake, both=True)
    kids = []

    class Kid:
        def set_standardized_data(self, data, reference=None):
            kids.append(data)
            return self

    kid = Kid()
    S.patch(par, "spawn_child", lambda: kid, both=True)
    out = base._constraint_solver(par, budget)
    S.prove("one-search", len(made) == 1 and made[0].budget is budget)
    S.prove("child-at-the-recommendation", out is kid and kids == ["data"])
    S.prove("parameter-kept", par._constraint_checkers == checks and par.tabu_length == 3)
    S.prove("each-told", g.told == g.asked)
    S.prove("within-budget", S.land(g.asked >= 1, g.asked <= budget))
    S.prove("up-to-the-first", S.land(S.lor(g.asked == budget, g.ok(g.asked - 1)), S.forall(g.asked - 1, lambda i: S.lnot(g.ok(i)))))


# ------------------------------------------------------------------------------------------------ bounded
def _c_scalar(v):
    return float(v[0] - 0.3)


_OPTS = ["OnePlusOne", "DE", "CMA", "PSO", "RandomSearch", "NGOpt", "TwoPointsDE", "DiscreteOnePlusOne", "ES" if "ES" in registry else "TBPSA"]


@bounded("C07", [B + "Optimizer.ask", B + "_constraint_solver", K + "Parameter.register_cheap_constraint"], trials=60, conc_s=15,
         bound="9 optimizers, half-space constraints (float or boolean) of dimension 2, <= 12 asks")
def api_constrained_asks(S):
    r = gen.rs(S)
    name = _OPTS[r.randint(len(_OPTS))]
    thr = float(r.uniform(-1.5, 0.8))
    par = p.Array(shape=(2,)) if r.rand() < 0.6 else p.Array(init=np.zeros(2)).set_bounds(-3, 3)
    kind = r.randint(3)

    def fl(v):
        return float(v[0] - thr)

    def bo(v):
        return bool(v[0] >= thr)

    par.register_cheap_constraint(bo if kind == 1 else fl)
    if kind == 2:
        par.register_cheap_constraint(_pos1)
    par.random_state.seed(int(r.randint(2**31)))
    opt = registry[name](par, budget=40)
    for k in range(12):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            c = opt.ask()
        failed = any(isinstance(w.message, errors.FailedConstraintWarning) for w in ws)
        ok = c.value[0] >= thr and (kind != 2 or c.value[1] >= -1)
        S.prove("feasible-or-warned", ok or failed or errors.FailedConstraintWarning in opt._sent_warnings, value=c.value, thr=thr, name=name)
        S.prove("easy-is-solved", ok, value=c.value, thr=thr, name=name)
        S.prove("counted", opt.num_ask == k + 1)
        opt.tell(c, float(np.sum((c.value - 1) ** 2)))
    rec = opt.recommend()
    S.prove("constraints-inherited", len(rec._constraint_checkers) == (2 if kind == 2 else 1) and len(c.spawn_child()._constraint_checkers) == len(rec._constraint_checkers))


def _pos1(v):
    return float(v[1] + 1)


@bounded("C07", [K + "Parameter.satisfies_constraints", K + "Parameter.specify_tabu_length"], trials=200, conc_s=10, bound="memory of at most 6 values, sequences of at most 60 candidates")
def api_tabu(S):
    """sequences of candidates against a plain model: the last accepted values are refused"""
    r = gen.rs(S)
    L = int(r.randint(1, 7))
    kind = r.randint(4)
    vals = int(r.randint(2, 12))
    if kind == 0:
        par = p.Scalar(lower=0, upper=vals).set_integer_casting()
    elif kind == 1:
        par = p.Array(init=[1.0], lower=0, upper=vals).set_integer_casting()
    elif kind == 2:
        par = p.Choice(range(vals), deterministic=True)
    else:
        par = p.Dict(x=p.Scalar(lower=0, upper=vals).set_integer_casting(), y=p.TransitionChoice(range(2)))
    par.specify_tabu_length(L)
    model = []
    for _ in range(60):
        c = par.spawn_child()
        v = int(r.randint(vals))
        if kind == 1:
            c.value = np.array([v])
        elif kind == 3:
            v = (v, int(r.randint(2)))
            c.value = dict(x=v[0], y=v[1])
        else:
            c.value = v
        want = v not in model
        S.prove("inherits-length", c.tabu_length == L)
        S.prove("ignored-on-demand", c.satisfies_constraints(par, no_tabu=True) and c.satisfies_constraints())
        got = c.satisfies_constraints(par)
        S.prove("last-values-refused", got == want, model=model, v=v, L=L)
        if want:
            model = (model + [v])[-L:]
        S.prove("bounded-memory", len(par.tabu_list) <= L and len(par.tabu_set) == len(par.tabu_list) == len(model))


@bounded("C07", ["nevergrad.ops.constraints:Constraint._layered_get_value", "nevergrad.ops.constraints:Constraint.apply_constraint", K + "Parameter.register_cheap_constraint"], trials=25, conc_s=12,
         bound="norm constraints of dimension 2 or 3, 100 evaluations of the solver")
def api_constraint_layer(S):
    r = gen.rs(S)
    n = int(r.randint(2, 4))
    lim = float(r.uniform(0.5, 2))
    calls = []

    def norm(x):
        calls.append(1)
        return float(np.sum(x**2) - lim)

    par = p.Array(init=r.normal(size=n) * float(r.choice([0.1, 3])))
    par.random_state.seed(int(r.randint(2**31)))
    before = np.array(par.value)
    con = Constraint(norm, optimizer="OnePlusOne", budget=60)(par)
    v = con.value
    S.prove("stable", np.array_equal(con.value, v))
    S.prove("source-untouched", np.array_equal(par.value, before))
    if np.sum(before**2) <= lim:
        S.prove("kept-when-satisfied", np.array_equal(v, before))
    else:
        S.prove("improved", np.sum(v**2) < np.sum(before**2) + 1e-9, before=before, after=v)
