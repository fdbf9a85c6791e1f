"""C25: registries, callbacks, early stopping, loggers."""
import collections.abc
import io
import json
import logging
import math
import os
import pickle
import shutil
import sys
import tempfile
import types
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded
from nevergrad.common import decorators, errors
from nevergrad.optimization import base, callbacks, optimizerlib
from nevergrad.parametrization import parameter as p
from contracts import gen

D = "nevergrad.common.decorators:Registry."
K = "nevergrad.optimization.callbacks:"
B = "nevergrad.optimization.base:"


class _Named:
    """an object of the registry"""

    def __init__(self, name, ident):
        if name is not None:
            self.__name__ = name
        self.ident = ident


class _Info(dict):
    ident = 0


class _Map(collections.abc.MutableMapping):
    """trusted contract of dict, with any content (keys and values are known by their numbers)"""

    def __init__(self, S, name, make):
        z = S.z3
        self.S, self.make = S, make
        h, v = z.Function(name + "_has", z.IntSort(), z.BoolSort()), z.Function(name + "_val", z.IntSort(), z.IntSort())
        self.h, self.v = (lambda k: h(k)), (lambda k: v(k))

    def _z(self, k):
        return self.S.core.toz(k)

    def has(self, k):
        return self.S.core.wrapz(self.h(self._z(k)))

    def ident(self, k):
        return self.S.core.wrapz(self.v(self._z(k)))

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError(k)
        return self.make(self.ident(k))

    def __setitem__(self, k, value):
        h, v, z = self.h, self.v, self.S.z3
        kk, vv = self._z(k), self._z(getattr(value, "ident", 0))
        self.h = lambda x: z.Or(x == kk, h(x))
        self.v = lambda x: z.If(x == kk, vv, v(x))

    def __delitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError(k)
        h, z, kk = self.h, self.S.z3, self._z(k)
        self.h = lambda x: z.And(x != kk, h(x))

    def __iter__(self):
        raise self.S.core.Unsupported("iteration over any map")

    __len__ = __iter__


def _info(ident):
    r = _Info()
    r.ident = ident
    return r


class _Conc:
    """the same view of a real dict"""

    def __init__(self, d):
        self.d = d

    def has(self, k):
        return k in self.d

    def ident(self, k):
        return getattr(self.d[k], "ident", 0) if k in self.d else 0


def _reg_inputs(S):
    """any registry: every information is about a registered name"""
    r = decorators.Registry()
    if S.symbolic:
        r.data, r._information = _Map(S, "data", lambda i: _Named(None, i)), _Map(S, "info", _info)
        x = S.z3.Int("x")
        h, i = r.data.h(x), r._information.h(x)
        S.c.add(S.z3.ForAll([x], S.z3.Implies(i, h), patterns=[i]))
    else:
        for k in range(S.size("registered", 0, 4)):
            key, has = S.int(f"k{k}", 0, 9), S.bool(f"i{k}")
            if key not in r:
                r.register_name(key, _Named(None, 10 + k), _info(20 + k) if has else None)
    return r


def _view(S, r):
    if S.symbolic:
        d, i = r.data, r._information
        c = types.SimpleNamespace()
        out = []
        for m in (d, i):
            n = _Map.__new__(_Map)
            n.S, n.h, n.v, n.make = S, m.h, m.v, m.make
            out.append(n)
        return out
    return [_Conc(dict(r.data)), _Conc(dict(r._information))]


def _same(S, v0, v1, k, info=True):
    cond = [S.iff(v0[0].has(k), v1[0].has(k)), S.implies(v0[0].has(k), lambda: v0[0].ident(k) == v1[0].ident(k))]
    if info:
        cond += [S.iff(v0[1].has(k), v1[1].has(k)), S.implies(v0[1].has(k), lambda: v0[1].ident(k) == v1[1].ident(k))]
    return S.land(*cond)


@contract("C25", [D + "register", D + "register_name", D + "register_with_info", D + "__setitem__", D + "__getitem__"], trials=300)
def register(S):
    """any registry: a new name gives back the object and its information, a known name is refused and nothing changes"""
    r = _reg_inputs(S)
    v0 = _view(S, r)
    name, other = S.int("name", 0, 9), S.int("other", 0, 9)
    obj = _Named(name, S.int("object", 1, 9))
    how = S.choose("how", ["register", "register_name", "with_info"])
    info = _info(S.int("information", 1, 9)) if S.bool("informed") else None
    known = bool(v0[0].has(name))
    try:
        if how == "register":
            out = r.register(obj, info)
        elif how == "with_info":
            # keyword arguments make the information
            out = r.register_with_info(a=3)(obj)
        else:
            r.register_name(name, obj, info)
            out = obj
    except RuntimeError:
        S.prove("refused-only-if-known", known)
        v1 = _view(S, r)
        S.prove("refused-changes-nothing", S.land(_same(S, v0, v1, name), _same(S, v0, v1, other)))
        return
    S.prove("known-refused", not known)
    S.prove("decorator-transparent", out is obj)
    S.prove("returned", S.land(name in r, r[name].ident == obj.ident))
    v1 = _view(S, r)
    if how == "with_info":
        S.prove("information-kept", v1[1].has(name))
    elif info is not None:
        S.prove("information", S.land(v1[1].has(name), r.get_info(name).ident == info.ident))
    else:
        S.prove("no-information", S.lnot(v1[1].has(name)))
    S.prove("others-unchanged", S.implies(S.lnot(other == name), lambda: _same(S, v0, v1, other)))


@contract("C25", [D + "unregister", D + "__delitem__", D + "get_info", D + "register_name"], trials=300)
def unregister(S):
    """unregistering removes the name and its information only, so that it can be registered again without the former information"""
    r = _reg_inputs(S)
    v0 = _view(S, r)
    name, other = S.int("name", 0, 9), S.int("other", 0, 9)
    known = bool(v0[0].has(name))
    r.unregister(name)
    v1 = _view(S, r)
    S.prove("removed", S.land(S.lnot(v1[0].has(name)), S.lnot(v1[1].has(name)), name not in r))
    S.prove("others-unchanged", S.implies(S.lnot(other == name), lambda: _same(S, v0, v1, other)))
    if not known:
        S.prove("unknown-name", _same(S, v0, v1, other))
    try:
        r.get_info(name)
        S.fail("no-information-of-unknown")
    except ValueError:
        S.prove("unknown", True)
    r.register_name(name, _Named(None, 7))
    S.prove("again", S.land(r[name].ident == 7, S.lnot(_view(S, r)[1].has(name))))


@contract("C25", [D + "get_info"], trials=200)
def get_info(S):
    """the information is the one given with the object, and empty (and mutable) otherwise; the registered objects are left alone"""
    r = _reg_inputs(S)
    v0 = _view(S, r)
    name, other = S.int("name", 0, 9), S.int("other", 0, 9)
    known = bool(v0[0].has(name))
    try:
        out = r.get_info(name)
    except ValueError:
        S.prove("refused-only-if-unknown", not known)
        S.prove("nothing-changed", S.land(_same(S, v0, _view(S, r), name), _same(S, v0, _view(S, r), other)))
        return
    S.prove("unknown-refused", known)
    S.prove("information", S.ite(v0[1].has(name), getattr(out, "ident", 0) == v0[1].ident(name), getattr(out, "ident", 0) == 0))
    S.prove("others-unchanged", S.land(_same(S, v0, _view(S, r), name, info=False), S.implies(S.lnot(other == name), lambda: _same(S, v0, _view(S, r), other))))


@bounded("C25", [D + "__iter__", D + "__len__", D + "__getitem__", D + "register", D + "unregister"], trials=150, conc_s=5, bound="up to 25 operations on 6 names")
def registry_histories(S):
    """any sequence of operations: the registry is the dictionary of what was registered and not removed since, in order"""
    r, model, info = decorators.Registry(), {}, {}
    for k in range(S.size("n", 1, 25)):
        op = S.choose(f"op{k}", ["add", "add", "remove", "set", "del", "pop", "info"])
        name = S.choose(f"name{k}", list("abcdef"))

        def obj(x=k):
            return x

        obj.__name__ = name
        if op == "add":
            try:
                with_info = S.bool(f"with{k}")
                out = r.register_with_info(k=k)(obj) if with_info else r.register(obj)
                S.prove("new", name not in model and out is obj)
                model[name] = obj
                if with_info:
                    info[name] = {"k": k}
            except RuntimeError:
                S.prove("known", name in model)
        elif op == "remove":
            r.unregister(name)
            model.pop(name, None)
            info.pop(name, None)
        elif op == "set":
            r[name] = obj
            model[name] = obj
        elif op == "pop":
            S.prove("popped", r.pop(name, None) is model.pop(name, None))
            info.pop(name, None)
        elif op == "del":
            try:
                del r[name]
                S.prove("deleted", name in model)
            except KeyError:
                S.prove("missing", name not in model)
            model.pop(name, None)
            info.pop(name, None)
        else:
            try:
                S.prove("info", r.get_info(name) == info.get(name, {}) and name in model)
            except ValueError:
                S.prove("info-unknown", name not in model)
        S.prove("content", list(r) == list(model) and len(r) == len(model) and all(r[n] is o for n, o in model.items()))
        S.prove("information", all(r.get_info(n) == info.get(n, {}) for n in model))


# ---------------------------------------------------------------------------------------------------- early stopping
@contract("C25", [K + "EarlyStopping.__call__"], trials=60)
def early_stopping(S):
    """stops exactly when the criterion holds; refuses to be used for a tell"""
    opt = types.SimpleNamespace()
    holds = S.bool("criterion")
    seen = []
    stop = callbacks.EarlyStopping(lambda o: (seen.append(o), holds)[1])
    args = S.choose("arguments", [(), (3, 1.0)])
    raised = None
    try:
        stop(opt, *args)
    except errors.NevergradEarlyStopping:
        raised = "stop"
    except errors.NevergradRuntimeError:
        raised = "refused"
    if args:
        S.prove("refused", raised == "refused" and not seen)
    else:
        S.prove("stops", S.iff(holds, raised == "stop"))
        S.prove("criterion-on-optimizer", len(seen) == 1 and seen[0] is opt)


@contract("C25", [K + "_LossImprovementToleranceCriterion.__call__", K + "EarlyStopping.no_improvement_stopper"], trials=400)
def no_improvement(S):
    """one ask with any state: the number of asks since the last improvement is counted, and stops exactly beyond the window"""
    window = S.size("window", 0, 5)
    crit = callbacks.EarlyStopping.no_improvement_stopper(window).stopping_criterion
    state = S.choose("state", ["new", "running", "norecom", "noloss"])
    v, best, count = S.real("value"), S.real("best"), S.size("count", 0, 6)
    rec = types.SimpleNamespace(loss=v, _losses=None, losses=S.array([v]))
    if state == "norecom":
        rec = None
    if state == "noloss":
        rec = types.SimpleNamespace(loss=None, _losses=None)
    if state != "new":
        crit._best_value, crit._tolerance_count = S.array([best]), count
    out = crit(types.SimpleNamespace(provide_recommendation=lambda: rec, recommend=lambda: rec))
    if state in ("norecom", "noloss"):
        S.prove("unknown-loss", S.land(S.lnot(out), crit._tolerance_count == count, crit._best_value[0] == best))
    elif state == "new":
        S.prove("first", S.land(S.lnot(out), crit._tolerance_count == 0, crit._best_value[0] == v))
    else:
        better = v < best
        S.prove("count", crit._tolerance_count == S.ite(better, 0, count + 1))
        S.prove("best", crit._best_value[0] == S.ite(better, v, best))
        S.prove("stops", S.iff(out, S.land(S.lnot(better), count + 1 > window)))


@contract("C25", [K + "_DurationCriterion.__call__", K + "EarlyStopping.timer"], trials=200)
def duration(S):
    """the time counts from the first ask, and stops exactly when more than the duration has elapsed"""
    dur = S.real("duration", 0, 100)
    now = [S.real("t0", 0, 1000)]
    S.patch(callbacks, "time", types.SimpleNamespace(time=lambda: now[0]), both=True)
    crit = callbacks.EarlyStopping.timer(dur).stopping_criterion
    S.prove("starts", S.lnot(crit(None)))
    t1 = S.real("t1", 0, 2000)
    S.assume(t1 >= now[0])
    start = now[0]
    now[0] = t1
    S.prove("stops", S.iff(crit(None), t1 > start + dur))
    t2 = S.real("t2", 0, 4000)
    S.assume(t2 >= t1)
    now[0] = t2
    S.prove("same-start", S.iff(crit(None), t2 > start + dur))
    later = S.bool("pickled")
    if later and not S.symbolic:
        S.prove("pickled", bool(pickle.loads(pickle.dumps(crit))(None)) == bool(t2 > start + dur))


# ---------------------------------------------------------------------------------------------------- loggers
def _due(S, make, count):
    """one call in any state: it writes exactly when enough tells or seconds have passed since it last did"""
    tells, secs = S.size("tells", 1, 5), S.real("seconds", 0.5, 50)
    now = S.real("now", 0, 1000)
    first = S.real("created", 0, 1000)
    S.assume(first <= now)
    clock = [first]
    S.patch(callbacks, "time", types.SimpleNamespace(time=lambda: clock[0]), both=True)
    cb = make(tells, secs)
    clock[0] = now
    num_tell = S.size("num_tell", 0, 20)
    opt = types.SimpleNamespace(num_tell=num_tell, num_objectives=1, provide_recommendation=lambda: "recom", recommend=lambda: "recom")
    cb(opt)
    S.prove("first-call", count() == 1)  # it starts with the first call
    # any later call, without any in between
    k2, t2 = S.size("num_tell2", 0, 40), S.real("t2", 0, 2000)
    S.assume(S.land(k2 >= num_tell, t2 >= now))
    opt.num_tell, clock[0] = k2, t2
    cb(opt, "candidate", 12.0)
    due = S.lor(k2 - num_tell >= tells, t2 - now >= secs)
    S.prove("interval", S.iff(due, count() == 2))
    last_k, last_t = S.ite(due, k2, num_tell), S.ite(due, t2, now)
    n = count()
    k3, t3 = S.size("num_tell3", 0, 80), S.real("t3", 0, 4000)
    S.assume(S.land(k3 >= k2, t3 >= t2))
    opt.num_tell, clock[0] = k3, t3
    cb(opt)
    S.prove("interval-again", S.iff(S.lor(k3 - last_k >= tells, t3 - last_t >= secs), count() == n + 1))
    S.prove("once", S.lor(count() == n, count() == n + 1))


@contract("C25", [K + "OptimizationPrinter.__call__", K + "OptimizationPrinter.__init__"], trials=300)
def printer(S):
    """prints at the first call, then exactly when the interval in tells or in seconds is over"""
    out = []
    S.patch(callbacks, "print", lambda *a: out.append(a), both=True)
    _due(S, lambda n, s: callbacks.OptimizationPrinter(n, s), lambda: len(out))


@contract("C25", [K + "OptimizationLogger.__call__", K + "OptimizationLogger.__init__"], trials=300)
def logger(S):
    """logs at the first call, then exactly when the interval in tells or in seconds is over, at the requested level"""
    out = []
    level = S.choose("level", [logging.INFO, logging.ERROR])
    log = types.SimpleNamespace(log=lambda *a: out.append(a))
    _due(S, lambda n, s: callbacks.OptimizationLogger(logger=log, log_level=level, log_interval_tells=n, log_interval_seconds=s), lambda: len(out))
    S.prove("level", all(a[0] == level and a[3] == "recom" for a in out))


@contract("C25", [K + "ProgressBar.__call__", K + "ProgressBar.__getstate__"], trials=150)
def progress(S):
    """the bar shows the number of calls, whatever was done before, and goes on after pickling"""
    bars = []

    class _Bar:
        def __init__(self):
            self.total, self.n = None, 0
            bars.append(self)

        def update(self, k):
            self.n = self.n + k

    S.patch(sys.modules["tqdm"] if "tqdm" in sys.modules else __import__("tqdm"), "tqdm", _Bar, both=True)
    cb = callbacks.ProgressBar()
    done = S.size("done", 0, 20)
    opt = types.SimpleNamespace(budget=S.size("budget", 1, 50))
    if S.bool("resumed"):
        cb._current = done
    else:
        done = 0
    cb(opt)
    cb(opt, "candidate", 3.0)
    S.prove("shown", S.land(len(bars) == 1, bars[0].n == done + 2, bars[0].total == opt.budget))
    new = callbacks.ProgressBar.__new__(callbacks.ProgressBar)
    new.__dict__.update(cb.__getstate__())
    new(opt)
    S.prove("goes-on", S.land(len(bars) == 2, bars[-1].n == done + 3, bars[0].n == done + 2))
    S.prove("left-alone", cb._progress_bar is bars[0])


# ---------------------------------------------------------------------------------------------------- on real optimizers
NAMES = ["OnePlusOne", "DE", "PSO", "RandomSearch", "CMA", "TwoPointsDE", "NGOpt", "ES", "Portfolio", "CauchyLHSSearch", "TBPSA", "NoisyOnePlusOne"]


def _optimizer(S, par=None, nobj=1, budget=None):
    name = S.choose("optimizer", NAMES if nobj == 1 else ["OnePlusOne", "DE", "NSGAIIES", "PSO", "RandomSearch"])
    if name == "NSGAIIES":
        cls = ng.families.EvolutionStrategy(recombination_ratio=0, popsize=4, offsprings=6, only_offsprings=True, ranker="nsga2")
    elif name == "ES":
        cls = ng.families.EvolutionStrategy(recombination_ratio=0.5, popsize=3, offsprings=4)
    else:
        cls = ng.optimizers.registry[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = cls(par if par is not None else 2, budget=budget or 30, num_workers=S.choose("workers", [1, 3]))
    opt.parametrization.random_state.seed(S.seed % 1000)
    return opt


def _obj(x):
    return float(np.sum((np.asarray(x) - 0.3) ** 2))


@bounded("C25", [B + "Optimizer.minimize", B + "Optimizer.ask", B + "Optimizer.tell", K + "EarlyStopping.__call__"], trials=60, conc_s=8,
         bound="budgets up to 25, 12 optimizers, up to 4 callbacks")
def minimize_callbacks(S):
    """minimize: each ask and each tell calls each callback once and in order; early stopping ends it at the first ask at which its criterion
    holds, every job already sent is told, and what was stopped can be continued"""
    opt = _optimizer(S, budget=S.int("budget", 1, 25))
    calls = []
    k = S.choose("callbacks", [1, 2])
    for i in range(k):
        opt.register_callback("ask", lambda o, i=i: calls.append(("ask", i, o.num_ask)))
        opt.register_callback("tell", lambda o, c, l, i=i: calls.append(("tell", i, c.uid, l, o.num_tell)))
    limit = S.int("limit", 0, 30)
    evaluated = []
    kind = S.choose("criterion", ["asks", "tells", "none"])
    crits = []

    def crit(o):
        n = o.num_ask if kind == "asks" else o.num_tell
        crits.append(n >= limit)
        return n >= limit

    if kind != "none":
        opt.register_callback("ask", callbacks.EarlyStopping(crit))

    def f(x):
        evaluated.append(_obj(x))
        return evaluated[-1]

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt.minimize(f)
    asks, tells = [c for c in calls if c[0] == "ask"], [c for c in calls if c[0] == "tell"]
    nasks = opt.num_ask
    stopped = any(crits)
    S.prove("asked", len(evaluated) == nasks == opt.num_tell)
    S.prove("stops-at-first", stopped is False or (crits.count(True) == 1 and crits[-1]))
    S.prove("stops-exactly", kind == "none" or stopped == (nasks < opt.budget))
    if kind == "asks":
        S.prove("asks", nasks == min(opt.budget, limit))
    S.prove("ask-order", [c[1] for c in asks] == list(range(k)) * (nasks + stopped) and [c[2] for c in asks] == [n for n in range(nasks + stopped) for _ in range(k)])
    S.prove("tell-order", [c[1] for c in tells] == list(range(k)) * nasks and [c[4] for c in tells] == [n for n in range(nasks) for _ in range(k)])
    S.prove("tell-losses", sorted(c[3] for c in tells[::k]) == sorted(evaluated))
    # going on
    opt.remove_all_callbacks()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt.minimize(f)
    S.prove("resumed", opt.num_ask == opt.num_tell == len(evaluated) == opt.budget and len(tells) == nasks * k)


@bounded("C25", [K + "_LossImprovementToleranceCriterion.__call__", B + "Optimizer.minimize"], trials=120, conc_s=6, bound="up to 40 losses, windows up to 6")
def no_improvement_histories(S):
    """for any sequence of losses: stops at the first ask at which more than the window of asks in a row saw no improvement of the recommendation"""
    window = S.int("window", 0, 6)
    n = S.size("n", 1, 40)
    losses = [S.int(f"l{k}", 0, 8) / 4.0 for k in range(n)]
    opt = ng.optimizers.OnePlusOne(2, budget=n)
    opt.parametrization.random_state.seed(S.seed % 1000)
    opt.register_callback("ask", callbacks.EarlyStopping.no_improvement_stopper(window))
    it = iter(losses)
    opt.minimize(lambda x: next(it))
    best, same, expected = None, 0, n
    for a in range(1, n):  # a-th ask, after a tells
        b = min(losses[:a])
        if best is None:
            best = b
            continue
        same = same + 1 if b >= best else 0
        best = min(b, best)
        if same > window:
            expected = a
            break
    S.prove("stopped-at", opt.num_ask == expected, asks=opt.num_ask, expected=expected)


def _value(x):
    """what a json file can tell"""
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (tuple, list)):
        return [_value(y) for y in x]
    return x


def _same_json(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same_json(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def _param(S):
    kind = S.choose("parametrization", ["array", "dict", "instrumentation", "choice", "nested", "sigma"])
    if kind == "array":
        return p.Array(shape=(S.int("d0", 1, 3), 2))
    if kind == "dict":
        return p.Dict(a=p.Scalar(), b=p.Array(shape=(2,)), c=3, t="text \u00e9\n\"")
    if kind == "instrumentation":
        return p.Instrumentation(p.Scalar(lower=-1, upper=2), 12, x=p.TransitionChoice([1, 2.5, "z", True, None]), y=p.Log(lower=0.1, upper=10))
    if kind == "choice":
        return p.Choice([p.Scalar(), p.Array(shape=(2,)), 3, float("inf"), float("nan")])
    if kind == "nested":
        return p.Tuple(p.Dict(u=p.Choice([1, 2], repetitions=2)), p.Scalar().set_integer_casting())
    if S.bool("deep"):
        return p.Tuple(p.Array(shape=(2,)).set_mutation(sigma=p.Log(lower=0.1, upper=10).set_mutation(sigma=p.Log(lower=0.1, upper=10))))
    return p.Array(shape=(2,)).set_mutation(sigma=p.Log(lower=0.1, upper=10))


@bounded("C25", [K + "ParametersLogger.__call__", K + "ParametersLogger.load", K + "ParametersLogger.load_flattened", K + "ParametersLogger.__init__",
                 "nevergrad.parametrization.helpers:flatten"], trials=60, conc_s=8, bound="up to 8 tells, 6 parametrizations, 1 to 3 objectives")
def log_round_trip(S):
    """one entry per tell and in order, which reads back as what was told; appended or replaced as requested"""
    folder = tempfile.mkdtemp(prefix="ngvc-log-")
    try:
        path = os.path.join(folder, "sub", "logs.txt")
        nobj = S.choose("objectives", [1, 1, 2, 3])
        order = S.choose("order", [1, 1, 0, 2])
        opt = _optimizer(S, par=_param(S), nobj=nobj)
        log = callbacks.ParametersLogger(path, append=S.bool("append"), order=order)
        S.prove("empty", log.load() == [])
        opt.register_callback("tell", log)
        told = []
        pending = []
        for k in range(S.size("n", 1, 8)):
            pending.append(opt.ask() if S.bool(f"ask{k}") else opt.parametrization.spawn_child())
            if S.bool(f"wait{k}"):
                continue
            c = pending.pop(S.int(f"which{k}", 0, 9) % len(pending))
            loss = S.fp(f"loss{k}") if nobj == 1 else [float(S.int(f"loss{k}_{j}", 0, 9)) for j in range(nobj)]
            before = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    opt.tell(c, loss)
                except errors.TellNotAskedNotSupportedError:
                    pass
            told.append((c, loss, before))
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            data = callbacks.ParametersLogger(path).load()
        S.prove("one-per-tell", len(data) == len(told), lines=len(data), told=len(told))
        for d, (c, loss, before) in zip(data, told):
            S.prove("identity", d["#uid"] == c.uid and d["#generation"] == c.generation and d["#lineage"] == c.heritage["lineage"]
                    and d["#parents_uids"] == (list(c.parents_uids) if c.generation > 1 else []))
            S.prove("counts", (d["#num-ask"], d["#num-tell"], d["#num-tell-not-asked"]) == before)
            S.prove("names", d["#optimizer"] == opt.name and d["#parametrization"] == opt.parametrization.name)
            if nobj == 1:
                v = float(loss)
                S.prove("loss", d["#loss"] == (v if v < 5e20 else 5e20), loss=v)
            else:
                S.prove("losses", [d[f"#losses#{j}"] for j in range(nobj)] == loss)
            flat = p.helpers.flatten(c, with_containers=False, order=order)
            S.prove("parameters", all((n or "0") in d for n, _ in flat))
            for n, par in flat:
                got, val = d[n or "0"], par.value
                if not callable(val):
                    S.prove("value", _same_json(got, _value(val)), got=repr(got), value=repr(val))
                if isinstance(par, p.Data):
                    S.prove("sigma", _same_json(d[(n or "0") + "#sigma"], _value(par.sigma.value)))
            about = {n or "0" for n, _ in flat} | {(n or "0") + "#sigma" for n, par in flat if isinstance(par, p.Data)}
            rest = {n for n in set(d) - about if not n.startswith(("#optimizer", "#losses#"))}
            S.prove("nothing-else", rest == {"#parametrization", "#session", "#num-ask", "#num-tell", "#num-tell-not-asked", "#uid", "#lineage", "#generation",
                                             "#parents_uids", "#loss"} | ({"#pareto-length"} if nobj > 1 else set()) | ({"#meta-sigma"} & rest), rest=sorted(rest))
        # every element of the lists, up to the requested number
        m = S.int("maximum", 0, 6)
        flat = callbacks.ParametersLogger(path).load_flattened(max_list_elements=m)
        for d, fl in zip(data, flat):
            n = 0
            for key, val in d.items():
                if not isinstance(val, list):
                    n += 1
                    S.prove("flat-value", _same_json(fl[key], val))
                else:
                    elements = list(np.ndenumerate(val))[:m]
                    n += len(elements)
                    S.prove("flat-elements", all(fl[key + "#" + "_".join(map(str, i))] == v or v != v for i, v in elements))
            S.prove("flat-complete", len(fl) == n)
        callbacks.ParametersLogger(path, append=True)
        S.prove("kept", len(callbacks.ParametersLogger(path).load()) == len(told))
        callbacks.ParametersLogger(path, append=False)
        S.prove("replaced", not os.path.exists(path))
    finally:
        shutil.rmtree(folder)


@bounded("C25", [K + "OptimizationLogger.__call__", K + "OptimizationPrinter.__call__", K + "OptimizerDump.__call__"], trials=40, conc_s=5, bound="up to 20 tells")
def loggers_on_optimizers(S):
    """loggers and dumps on a run, on ask or on tell, with one or several objectives: exactly at their interval"""
    folder = tempfile.mkdtemp(prefix="ngvc-log-")
    try:
        nobj = S.choose("objectives", [1, 2])
        opt = _optimizer(S, par=p.Array(shape=(2,)), nobj=nobj, budget=S.int("budget", 1, 20))
        if nobj > 1:
            opt.num_objectives = nobj
        on = S.choose("on", ["ask", "tell"])
        tells = S.int("tells", 1, 6)
        out = []
        log = types.SimpleNamespace(log=lambda *a: out.append((a, opt.num_tell)))
        opt.register_callback(on, callbacks.OptimizationLogger(logger=log, log_interval_tells=tells, log_interval_seconds=1e9))
        if S.bool("printer") and nobj == 1:
            opt.register_callback(on, callbacks.OptimizationPrinter(tells, 1e9))
            S.patch(callbacks, "print", lambda *a: None, both=True)
        path = os.path.join(folder, "opt.pkl")
        if S.bool("dump"):
            opt.register_callback("tell", callbacks.OptimizerDump(path))
            opt.remove_all_callbacks() if False else None
        calls = []
        opt.register_callback(on, lambda *a: calls.append(opt.num_tell))
        dump = "dump" in S.values and S.values["dump"]
        if dump:  # the closures above cannot be pickled
            opt.remove_all_callbacks()
            opt.register_callback("tell", callbacks.OptimizerDump(path))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opt.minimize(_obj if nobj == 1 else _obj2)
        if dump:
            new = type(opt).load(path)
            S.prove("dumped", new.num_ask == opt.num_ask and new.num_tell == opt.num_tell - 1 and list(new._callbacks) == ["tell"])
            return
        due, nxt = [], 0
        for n in calls:
            if n >= nxt:
                due.append(n)
                nxt = n + tells
        S.prove("interval", [n for _, n in out] == due, logged=[n for _, n in out], due=due)
        S.prove("number", all(a[2] == n for a, n in out))
        if nobj > 1:
            S.prove("minimum-losses", all(len(a[3]) in (0, nobj) for a, _ in out))
    finally:
        shutil.rmtree(folder)


def _obj2(x):
    return [_obj(x), _obj(-np.asarray(x))]


@contract("C25", [B + "ConfiguredOptimizer.__call__", B + "ConfiguredOptimizer.set_name", B + "ConfiguredOptimizer.config"], trials=200)
def configured_optimizer(S):
    """any parametrization, budget, number of workers and configuration: the class is called once, with them and with the configuration (or with the configured optimizer itself, or with
    nothing more when the class is already configured), the new optimizer has the name of the configuration and keeps it; the configuration is not modified"""
    as_config = S.choose("as_config", [False, True])
    nested = S.choose("nested", [False, False, True])
    budget = S.int("budget", 1) if S.choose("budget_known", [True, False]) else None
    workers = S.int("workers", 1)
    a, b = S.real("a"), S.int("b")
    config = {}
    if S.choose("has_a", [True, False]):
        config["a"] = a
    if S.choose("has_b", [True, False]):
        config["b"] = b
    made = []

    class Run:
        pass

    class Made(base.ConfiguredOptimizer if nested else object):
        def __init__(self):
            pass

        def __call__(self, *args, **kwargs):
            made.append((args, kwargs, Run()))
            return made[-1][2]

    target = Made()
    co = object.__new__(base.ConfiguredOptimizer)
    co._OptimizerClass, co._config, co._as_config, co.name = target, dict(config), as_config, "first name"
    par = object()
    registered = []
    register = S.choose("register", [False, True])
    S.patch(base.registry, "register_name", lambda n, o: registered.append((n, o)), both=True)
    S.prove("named", co.set_name("the name", register=register) is co and co.name == "the name" and repr(co) == "the name")
    S.prove("registered", registered == ([("the name", co)] if register else []))
    run = co(par, budget, num_workers=workers)
    S.prove("once", len(made) == 1 and run is made[0][2] and made[0][0] == ())
    kw = dict(made[0][1])
    S.prove("parametrization", kw.pop("parametrization") is par)
    got = kw.pop("budget")
    S.prove("budget", got is None if budget is None else got == budget)
    S.prove("workers", kw.pop("num_workers") == workers)
    if nested:
        S.prove("already-configured", kw == {})
    elif as_config:
        S.prove("itself", list(kw) == ["config"] and kw["config"] is co)
    else:
        S.prove("configuration", sorted(kw) == sorted(config) and S.land(True, *[kw[x] == config[x] for x in config]))
    S.prove("name", run.name == "the name" and run._configured_optimizer is co)
    out = co.config()
    S.prove("config", out is not co._config and sorted(out) == sorted(config))
    out["a"], out["z"] = None, 3
    S.prove("config-kept", sorted(co._config) == sorted(config) and S.land(True, *[co._config[x] == config[x] for x in config]))


@bounded("C25", [B + "ConfiguredOptimizer.set_name", B + "ConfiguredOptimizer.__call__", D + "register_name"], trials=40, conc_s=4, bound="the registered optimizers")
def optimizer_registry(S):
    """each registered optimizer is found under its own name, and a registered name cannot be taken by another one"""
    reg = ng.optimizers.registry
    names = sorted(reg)
    name = names[S.int("which", 0, len(names) - 1)]
    opt = reg[name]
    S.prove("name", (opt.name if isinstance(opt, base.ConfiguredOptimizer) else opt.__name__) == name and (not isinstance(opt, base.ConfiguredOptimizer) or repr(opt) == name))
    n = len(reg)
    try:
        ng.families.ParametrizedOnePlusOne().set_name(name, register=True)
        S.fail("collision")
    except RuntimeError:
        S.prove("kept", reg[name] is opt and len(reg) == n)
    new = ng.families.ParametrizedOnePlusOne().set_name("NgvcNew", register=True)
    try:
        S.prove("new", reg["NgvcNew"] is new and new(2, budget=3).name == "NgvcNew" and len(reg) == n + 1)
    finally:
        reg.unregister("NgvcNew")
    S.prove("removed", "NgvcNew" not in reg and len(reg) == n)
