"""C12: minimize evaluates within its budget and loses no evaluation, for any executor."""
import collections
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, bounded
from ngvc.seq import Inv, SSeq
from nevergrad.common import errors
from nevergrad.optimization import base, utils
from nevergrad.parametrization import parameter as p
from contracts import gen

B = "nevergrad.optimization.base:"
U = "nevergrad.optimization.utils:"
K = "nevergrad.optimization.base:Optimizer.minimize#"


class _Cand:
    def __init__(self, tag):
        self.tag, self.args, self.kwargs, self.value = tag, (("arg", id(self)),), {"kw": tag}, 0.0


class _Job:
    """what the protocol promises of a job: done at any time it likes, then a result"""

    def __init__(self, S, cand):
        self.S, self.cand, self.value = S, cand, object()

    def done(self):
        return self.S.c.decide_free("done")

    def result(self):
        return self.value


class _Jobs:
    """a list (or deque) of any number of (candidate, job): positions head.. head+n-1"""

    def __init__(self, S, g, n, what):
        self.S, self.g, self.n, self.what, self.head, self.cache = S, g, n, what, 0, {}

    def __bool__(self):
        return bool(self.n > 0)

    def _ngvc_len(self):
        return self.n

    def __len__(self):
        return self.n

    def pair(self, k):
        q = str(k)
        if q not in self.cache:
            c = _Cand((self.what, k))
            self.cache[q] = (c, _Job(self.S, c))
        return self.cache[q]

    def __getitem__(self, k):
        self.S.prove("head-only", k == 0)
        self.S.prove("not-empty", self.n > 0)
        return self.pair(self.head)

    def popleft(self):
        self.S.prove("not-empty", self.n > 0)
        x = self.pair(self.head)
        self.n, self.head = self.n - 1, self.head + 1
        return x

    def append(self, x):
        self.g.appended(self, x)
        self.n = self.n + 1

    def _ngvc_iter(self):
        self.g.split = self
        return SSeq(self.n, self.pair, list)


def _ln(q):
    return q.n if isinstance(q, _Jobs) else len(q)


class _Ghost:
    def __init__(self, S):
        self.S, self.told, self.told_here, self.early, self.split, self.last_ask, self.last_job, self.k = S, 0, 0, False, None, None, None, None

    def appended(self, q, x):
        S = self.S
        if q.what == "running":
            S.prove("asked-and-submitted", x[0] is self.last_ask and x[1] is self.last_job and self.last_ask is not None)
            self.last_ask = self.last_job = None
        else:
            # the loop splitting the running jobs: each one goes to one of the lists
            S.prove("element-kept", x is self.split.pair(self.k))


def _inv(S):
    g = S.ghost = _Ghost(S)

    def new(name, what, lo=0):
        n = S.int(f"{name}{len(S.c.inputs)}", lo)
        return _Jobs(S, g, n, what)

    def outer_havoc(st):
        o = st["self"]
        o._running_jobs, o._finished_jobs = new("running", "running"), new("finished", "finished")
        o._num_ask = S.int(f"asks{len(S.c.inputs)}", 0)
        g.told = S.int(f"told{len(S.c.inputs)}", 0)
        g.early = S.bool(f"early{len(S.c.inputs)}")
        g.told_here = 0
        return {"remaining_budget": S.int(f"remaining{len(S.c.inputs)}", 0), "first_iteration": S.bool(f"first{len(S.c.inputs)}")}

    def outer(st, k):
        o, rem = st["self"], st["remaining_budget"]
        r, f = _ln(o._running_jobs), _ln(o._finished_jobs)
        gap = S.ite(o.budget >= o._num_ask, o.budget - o._num_ask, 0)
        return S.land(r >= 0, f >= 0, rem >= 0, S.lor(r <= o.num_workers, r <= g.r0), g.told >= 0, o._num_ask >= g.ask0,
                      S.lor(rem == gap, S.land(g.early, rem == 0)),
                      S.lor(o._num_ask <= o.budget, o._num_ask == g.ask0),
                      g.told + r + f == g.pending0 + o._num_ask - g.ask0)

    def tell_inv(st, k):
        o = st["self"]
        q = o._finished_jobs
        if not isinstance(q, _Jobs):
            return True
        return S.land(q.n >= 0, q.n + q.head == g.f0, g.told == g.told0 + q.head)

    def tell_havoc(st):
        o = st["self"]
        q = o._finished_jobs
        if isinstance(q, _Jobs):
            q.head = S.int(f"head{len(S.c.inputs)}", 0)
            q.n = g.f0 - q.head
            g.told = g.told0 + q.head
        return {}

    def tell_first(st, k):
        o = st["self"]
        if not getattr(g, "in_tell", None) is o._finished_jobs:
            g.in_tell, g.f0, g.told0 = o._finished_jobs, _ln(o._finished_jobs), g.told
        return tell_inv(st, k)

    def ask_inv(st, k):
        o = st["self"]
        if type(k).__name__ == "int":  # entering the loop
            g.r1, g.a1, g.e1, g.rem1 = _ln(o._running_jobs), o._num_ask, g.early, st["remaining_budget"]
        return S.land(_ln(o._running_jobs) == g.r1 + k, o._num_ask == g.a1 + k, g.early == g.e1, st["remaining_budget"] == g.rem1)

    def ask_havoc(st):
        o = st["self"]
        kk = S.int(f"asked{len(S.c.inputs)}", 0)
        o._running_jobs = _Jobs(S, g, g.r1 + kk, "running")
        o._num_ask = g.a1 + kk
        return {}

    def split_inv(st, k):
        g.k = k
        a, b = st["tmp_runnings"], st["tmp_finished"]
        return S.land(_ln(a) >= 0, _ln(b) >= 0, _ln(a) + _ln(b) == k)

    def split_havoc(st):
        return {"tmp_runnings": new("tmpr", "tmp"), "tmp_finished": new("tmpf", "tmp")}

    return {
        K + "0": Inv(outer, havoc=outer_havoc, name="main-loop"),
        K + "1": Inv(tell_first, havoc=tell_havoc, measure=lambda st: _ln(st["self"]._finished_jobs), name="tell-loop"),
        K + "2": Inv(ask_inv, havoc=ask_havoc, name="ask-loop"),
        K + "3": Inv(split_inv, havoc=split_havoc, name="split-loop"),
    }


class _Opt(base.Optimizer):
    def _internal_ask_candidate(self):
        return self.parametrization.spawn_child()


@contract("C12", [B + "Optimizer.minimize"], trials=150, invariants=_inv, max_paths=3000)
def minimize(S):
    """any executor, number of workers, budget, batch mode, previous asks and pending jobs (after an interruption)"""
    if not S.symbolic:
        return _schedule(S)
    g = S.ghost
    opt = _Opt(p.Array(shape=(2,)), budget=10)
    opt.budget, opt.num_workers = S.int("budget", 0), S.int("num_workers", 1)
    opt._num_ask = g.ask0 = S.int("asks_before", 0)
    opt._running_jobs = _Jobs(S, g, S.int("running_before", 0), "running")
    opt._finished_jobs = _Jobs(S, g, S.int("finished_before", 0), "finished")
    g.r0 = opt._running_jobs.n
    g.pending0 = g.r0 + opt._finished_jobs.n

    class Sleeper:
        _start = None
        start_timer = stop_timer = sleep = lambda self: None

    S.patch(base.ngtools, "Sleeper", Sleeper, both=True)
    function = object()

    class Executor:
        def submit(self, fn, *args, **kwargs):
            a = g.last_ask
            S.prove("evaluates-the-asked-candidate", fn is function and a is not None and args == a.args and kwargs == a.kwargs and g.last_job is None)
            S.prove("within-workers", opt._running_jobs.n + 1 <= opt.num_workers)
            g.last_job = _Job(S, a)
            return g.last_job

    def ask():
        S.prove("within-budget", opt._num_ask < opt.budget)
        S.prove("previous-ask-submitted", g.last_ask is None)
        if S.c.decide_free("early_stopping"):
            g.early = True
            raise errors.NevergradEarlyStopping("stop")
        opt._num_ask = opt._num_ask + 1
        g.last_ask = _Cand("asked")
        return g.last_ask

    violation = S.choose("constraints", [False, True])
    funcs = [lambda v: ("violation", 0, v), lambda v: ("violation", 1, v)]

    def tell(x, loss, *rest):
        q = opt._finished_jobs
        S.prove("tells-next-finished", x is q.pair(q.head)[0])
        S.prove("tells-its-value", loss is q.pair(q.head)[1].value)
        S.prove("tells-violations", list(rest) == ([[("violation", 0, x.value), ("violation", 1, x.value)]] if violation else []))
        g.told = g.told + 1

    S.patch(opt, "ask", ask, both=True)
    S.patch(opt, "tell", tell, both=True)
    rec = object()
    S.patch(opt, "provide_recommendation", lambda: rec, both=True)
    objectives = S.int("objectives", 0)
    opt._num_objectives = objectives
    timed = S.choose("max_time", [False, True])
    if timed:
        class Time:
            @staticmethod
            def time():
                return S.real(f"t{len(S.c.inputs)}", 0)

        S.patch(base, "time", Time, both=True)
    out = opt.minimize(function, executor=Executor(), batch_mode=S.choose("batch", [False, True]), max_time=3.0 if timed else None,
                       constraint_violation=funcs if violation else None)
    r, f = _ln(opt._running_jobs), _ln(opt._finished_jobs)
    if not timed:
        S.prove("all-told", S.land(r == 0, f == 0))
        S.prove("budget-spent", S.lor(g.early, opt._num_ask >= opt.budget))
    S.prove("one-tell-per-ask", g.told + r + f == g.pending0 + opt._num_ask - g.ask0)
    S.prove("never-more-than-budget", S.lor(opt._num_ask <= opt.budget, opt._num_ask == g.ask0))
    S.prove("returns-recommendation", (out is rec) if bool(objectives == 1) else isinstance(out, p.Constant))


@contract("C12", [B + "Optimizer.minimize"], trials=5)
def minimize_needs_budget(S):
    opt = _Opt(p.Array(shape=(2,)), budget=None)
    try:
        opt.minimize(lambda x: 0.0)
        S.fail("refused")
    except ValueError:
        pass
    S.prove("nothing-asked", opt.num_ask == 0 and opt.num_tell == 0)


@contract("C12", [U + "DelayedJob.done", U + "DelayedJob.result", U + "SequentialExecutor.submit"], trials=30)
def sequential_executor(S):
    """evaluated exactly once, at the first request, with the given arguments"""
    calls = []
    v = S.real("value")

    def f(*a, **k):
        calls.append((a, k))
        return v

    job = utils.SequentialExecutor().submit(f, 1, "b", c=3)
    S.prove("done", job.done() is True)
    n = S.choose("requests", [0, 1, 2, 3])
    for _ in range(n):
        S.prove("value", job.result() is v)
        S.prove("done", job.done() is True)
    S.prove("called-once", calls == ([((1, "b"), {"c": 3})] if n else []))


class _RandomExecutor:
    """jobs complete in any order, after any number of polls; computes at submission, at completion or at the request"""

    def __init__(self, r, when):
        self.r, self.when, self.jobs, self.log = r, when, [], []

    def submit(self, fn, *a, **k):
        j = _RandomJob(self, fn, a, k)
        self.jobs.append(j)
        return j

    def running(self):
        return [j for j in self.jobs if not j.finished]


class _RandomJob:
    def __init__(self, ex, fn, a, k):
        self.ex, self.fn, self.a, self.k = ex, fn, a, k
        self.finished, self.value, self.polls, self.requests = False, None, 0, 0
        self.life = int(ex.r.choice([0, 0, 1, 2, 5, 9]))
        self.state = "new"
        if ex.when == 0:
            self.compute()

    def compute(self):
        if self.state == "new":
            self.state = "computed"
            try:
                self.value = ("ok", self.fn(*self.a, **self.k))
            except ValueError as e:
                self.value = ("exc", e)

    def done(self):
        self.polls += 1
        if self.polls > self.life:
            self.finished = True
            if self.ex.when == 1:
                self.compute()
        return self.finished

    def result(self):
        assert self.finished
        self.requests += 1
        self.compute()
        if self.value[0] == "exc":
            raise self.value[1]
        return self.value[1]


_NAMES = ["OnePlusOne", "DE", "PSO", "CMA", "TBPSA", "RandomSearch", "NGOpt", "ScrHammersleySearch", "NoisyDiscreteOnePlusOne", "TwoPointsDE", "Portfolio", "DiagonalCMA", "NoisyBandit", "cGA", "EDA", "DiscreteOnePlusOne", "NelderMead", "Powell"]


def _schedule(S):
    r = gen.rs(S)
    W = int(r.choice([1, 1, 2, 3, 5, 10]))
    budget = int(r.choice([0, 1, 2, 5, 12, 30]))
    name = S.choose("optimizer", _NAMES)
    cls = ng.optimizers.registry[name]
    if cls.no_parallelization:
        W = 1
    if cls.recast:
        budget = min(budget, 12)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        par = ng.p.Array(shape=(2,)) if r.rand() < 0.5 else ng.p.Instrumentation(ng.p.Scalar(lower=0, upper=1), y=ng.p.Choice([1, 2, 3]))
        par.random_state.seed(int(r.randint(1 << 30)))
        opt = cls(par, budget=budget, num_workers=W)
        pre = int(r.choice([0, 0, 0, 1, 3])) if not cls.recast else 0
        if name not in ("OnePlusOne", "DE", "PSO", "RandomSearch"):
            pre = min(pre, budget)  # nothing is promised beyond the budget
        pend = []
        for _ in range(pre):
            pend.append(opt.ask())
        for c in pend:
            if r.rand() < 0.7:
                opt.tell(c, 5.0)
        tells0 = opt.num_tell
        evals, asked, told = [], [], []
        fail = r.rand() < 0.15 and budget > 3
        bad = int(r.randint(1, max(2, budget)))
        objectives = 2 if r.rand() < 0.15 and not pre else 1

        def f(*a, **k):
            evals.append((a, k))
            if fail and len(evals) == bad:
                raise ValueError("broken function")
            return float(r.normal()) if objectives == 1 else [float(x) for x in r.normal(size=2)]

        ex = _RandomExecutor(r, r.randint(3)) if r.rand() < 0.85 else None
        over = []

        def on_tell(o, c, l):
            told.append((c.uid, l if objectives == 1 else c.losses.tolist()))

        opt.register_callback("tell", on_tell)
        ask0 = opt.ask

        def ask():
            c = ask0()
            asked.append(c)
            if ex is not None:
                over.append(len(ex.running()) + 1 > W)
            return c

        opt.ask = ask
        stop = None
        if r.rand() < 0.2 and not fail:
            stop = int(r.randint(0, 8))

            def early(o):
                if len(asked) >= stop:
                    raise errors.NevergradEarlyStopping("enough")

            opt.register_callback("ask", early)
        raised = False
        try:
            rec = opt.minimize(f, executor=ex, batch_mode=bool(r.rand() < 0.5))
        except ValueError as e:
            raised = True
            S.prove("raises-what-the-function-raised", fail and "broken function" in str(e))
        del opt.ask
    room = max(0, budget - pre)
    expected = room if stop is None else min(room, stop)
    S.prove("workers", not any(over))
    if raised or fail and len(evals) >= bad:
        S.prove("exception-given-to-the-caller", raised, evals=len(evals), bad=bad)
        S.prove("not-told", len(told) < len(evals) or ex is None)
        return
    S.prove("evaluations", len(evals) == len(asked) == expected, evals=len(evals), asked=len(asked), expected=expected, name=name)
    S.prove("asks", opt.num_ask == pre + expected)
    S.prove("tells", opt.num_tell == tells0 + expected == tells0 + len(told))
    S.prove("each-told-once", sorted(u for u, _ in told) == sorted(c.uid for c in asked))
    if ex is not None:
        by = {c.uid: j for c, j in zip(asked, ex.jobs)}
        S.prove("arguments", all(j.a == c.args and list(j.k) == list(c.kwargs) for c, j in zip(asked, ex.jobs)) if not isinstance(par, ng.p.Array) else all((j.a[0] == c.value).all() for c, j in zip(asked, ex.jobs)))
        S.prove("told-its-own-value", all(np.all(np.asarray(l) == np.asarray(by[u].value[1])) for u, l in told))
        S.prove("evaluated-once", all(j.state == "computed" for j in ex.jobs) and len(ex.jobs) == expected)
    S.prove("nothing-left", not opt._running_jobs and not opt._finished_jobs)
    if objectives == 1 and opt.num_tell:
        S.prove("recommendation", isinstance(rec, p.Parameter) and rec.uid is not None and np.shape(rec.value) == np.shape(par.value) if isinstance(par, ng.p.Array) else True)


@bounded("C12", [B + "Optimizer.minimize", B + "Optimizer.ask", B + "Optimizer.tell"], trials=400, conc_s=45,
         bound="random completion orders, at most 30 evaluations, 10 workers, 18 optimizers, early stopping, failing functions, previous asks")
def api_schedules(S):
    _schedule(S)


@bounded("C12", [B + "Optimizer.minimize"], trials=60, conc_s=15, bound="interrupted runs: at most 25 evaluations, 4 workers")
def api_resume(S):
    """interrupted by max_time or by an exception of the algorithm at a tell, a second minimize loses nothing"""
    r = gen.rs(S)
    W, budget = int(r.randint(1, 5)), int(r.randint(1, 26))
    opt = ng.optimizers.registry[str(r.choice(["OnePlusOne", "DE", "RandomSearch", "PSO"]))](2, budget=budget, num_workers=W)
    told, evals = collections.Counter(), []
    bad = int(r.randint(0, budget))
    armed = [True]

    def on_tell(o, c, l):
        if armed[0] and sum(told.values()) >= bad:
            armed[0] = False
            raise KeyboardInterrupt
        told[c.uid] += 1

    opt.register_callback("tell", on_tell)

    def f(x):
        evals.append(x)
        return float((x**2).sum())

    batch = bool(r.rand() < 0.5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            opt.minimize(f, executor=_RandomExecutor(r, 0), batch_mode=batch)
        except KeyboardInterrupt:
            pass
        opt.minimize(f, executor=_RandomExecutor(r, 0), batch_mode=batch)
    S.prove("all-evaluated", len(evals) == budget == opt.num_ask)
    S.prove("all-told-once", opt.num_tell == budget and len(told) == budget and set(told.values()) == {1})
