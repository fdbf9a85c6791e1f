"""C18: the simulated executor delivers the jobs in the order of their simulated end, once each."""
import nevergrad as ng
from ngvc.harness import contract, partial, bounded
from ngvc.seq import Inv, SSeq
from nevergrad.benchmark import execution as ex
from nevergrad.functions import ExperimentFunction
from nevergrad.parametrization import parameter as p

M = "nevergrad.benchmark.execution:"
J, E = M + "MockedTimedJob.", M + "MockedTimedExecutor."


class _Delayed(ExperimentFunction):
    """a benchmark function whose delays are given"""

    def __init__(self, delay):
        super().__init__(self._f, p.Scalar())
        self.delay, self.calls, self.asked = delay, [], []

    def _f(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return ("value", args, tuple(kwargs.items()))

    def __call__(self, *args, **kwargs):
        return self._f(*args, **kwargs)

    def compute_pseudotime(self, input_parameter, loss):
        self.asked.append((input_parameter, loss))
        return self.delay(*input_parameter[0]) if callable(self.delay) else self.delay


# ------------------------------------------------------------------------------------- one job
@contract("C18", [J + "process", J + "release_time", J + "__init__"], trials=120)
def process(S):
    """a job runs its function at most once, on its arguments, and ends a nonnegative delay (or 1 without simulated
    delays) after its submission"""
    executor = ex.MockedTimedExecutor(batch_mode=S.choose("batch", [False, True]))
    executor._time = t0 = S.real("time", 0)
    delay = S.real("delay")
    simulated = S.choose("simulated", [True, False])
    func = _Delayed(delay)
    calls = func.calls if simulated else []

    def plain(*args, **kwargs):
        calls.append((args, kwargs))
        return ("value", args, tuple(kwargs.items()))

    args, kwargs = (object(), 3), {"k": object()}
    job = executor.submit(func if simulated else plain, *args, **kwargs)
    S.prove("not-run-yet", calls == [] and job._output is None)
    executor._time = S.real("later", 0)  # the clock moved on since
    n = S.choose("calls", [1, 2, 3])
    for k in range(n):
        if S.choose(f"how{k}", [True, False]):
            job.process()
        else:
            S.prove("release", S.eq(job.release_time, t0 + (S.ite(delay > 0, delay, 0) if simulated else 1)))
    S.prove("run-once-on-its-arguments", calls == [(args, kwargs)])
    S.prove("output", job._output == ("value", args, tuple(kwargs.items())))
    S.prove("release-after", S.eq(job.release_time, t0 + (S.ite(delay > 0, delay, 0) if simulated else 1)))
    S.prove("still-once", len(calls) == 1)
    S.prove("pseudotime-from-result", not simulated or all(x == ((args, kwargs), job._output) for x in func.asked))


# ------------------------------------------------------------------------------------- any number of jobs
class _StubJob:
    """a submitted job: processing it is the contract above"""

    def __init__(self, G, k):
        self.G, self.k, self._is_read, self._done = G, k, False, False

    def process(self):
        self.G.processed(self.k)

    @property
    def release_time(self):
        self.G.processed(self.k)
        return self.G.rel(self.k)


class _Pending:
    """any number of submitted jobs, as a deque"""

    def __init__(self, G, n):
        self.G, self.head, self.n = G, 0, n

    def __bool__(self):
        return bool(self.n > 0)

    def _ngvc_len(self):
        return self.n

    def __getitem__(self, k):
        self.G.S.prove("first-pending", k == 0)
        self.G.S.prove("pending", self.n > 0)
        return _StubJob(self.G, self.head)

    def popleft(self):
        self.G.S.prove("pending", self.n > 0)
        j = _StubJob(self.G, self.head)
        self.head, self.n = self.head + 1, self.n - 1
        return j


class _Ghost:
    def __init__(self, S):
        self.S = S
        self.last = -1  # last processed position
        self.npushed = 0  # how many were pushed

    def rel(self, k):
        core = self.S.core
        return core.wrapz(self.S.z3.Function("release", self.S.z3.IntSort(), self.S.z3.RealSort())(core.toz(k)))

    def processed(self, k):
        self.S.prove("processes-next", self.S.lor(k == self.last, k == self.last + 1))
        self.last = k

    def pushed(self, heap, item):
        S = self.S
        S.prove("pushes-on-its-queue", heap is self.heap)
        S.prove("push-once-in-order", self.npushed == item.job.k)
        S.prove("push-release", S.eq(item.release_time, self.rel(item.job.k)))
        S.prove("push-order", item.order == self.order0 + item.job.k)
        S.prove("key-order", tuple(item)[:2] is not None and item[0] is item.release_time and item[1] is item.order)
        self.npushed = self.npushed + 1


class _Heapq:
    def __init__(self, G):
        self.heappush = G.pushed

    def heappop(self, h):
        raise AssertionError("unexpected pop")


def _psub_inv(S):
    g = S.ghost = _Ghost(S)

    def inv(st, k):
        o = st["self"]
        q = o._to_be_processed
        return S.land(q.n >= 0, q.head + q.n == g.n0, g.last == q.head - 1, o._order == g.order0 + q.head, g.npushed == (0 if o.batch_mode else q.head))

    def havoc(st):
        o = st["self"]
        q = o._to_be_processed
        q.head = S.int("head", 0)
        q.n = g.n0 - q.head
        g.last = q.head - 1
        o._order = g.order0 + q.head
        g.npushed = 0 if o.batch_mode else q.head
        return {}

    return {E + "_process_submissions#0": Inv(inv, havoc=havoc, measure=lambda st: st["self"]._to_be_processed.n, name="pending-jobs")}


@contract("C18", [E + "_process_submissions"], trials=120, invariants=_psub_inv)
def process_submissions(S):
    """whatever the number of pending jobs: each is run, and queued exactly once under (release time, submission number)"""
    if not S.symbolic:
        return
    g = S.ghost
    executor = ex.MockedTimedExecutor(batch_mode=S.choose("batch", [False, True]))
    g.n0 = S.int("pending", 0)
    g.order0 = executor._order = S.int("order", 0)
    g.heap = executor._steady_priority_queue
    executor._to_be_processed = _Pending(g, g.n0)
    executor._time = t = S.real("time", 0)
    S.patch(ex, "heapq", _Heapq(g))
    executor._process_submissions()
    S.prove("none-left", executor._to_be_processed.n == 0)
    S.prove("all-processed", g.last == g.n0 - 1)
    S.prove("all-queued-once", g.npushed == (0 if executor.batch_mode else g.n0))
    S.prove("order-counts", executor._order == g.order0 + g.n0)
    S.prove("time-unchanged", executor._time is t)


class _Heap:
    """trusted contract of heapq on a list: element 0 is the smallest of its elements, heappop removes it.
    Elements are numbered by order of submission; `member` tells which ones are in."""

    def __init__(self, S, job, jid):
        self.S, self.job, self.jid = S, job, jid
        z = S.z3
        self.order = z.Function("release", z.IntSort(), z.RealSort())
        self.member = z.Function("member", z.IntSort(), z.BoolSort())
        self.gone = []
        self.top_ = None

    def isin(self, k):
        z, core = self.S.z3, self.S.core
        k = core.toz(k)
        return z.And(self.member(k), k >= 0, *[k != core.toz(x) for x in self.gone])

    def before(self, a, b):
        """the entry a is taken before b"""
        z, core = self.S.z3, self.S.core
        a, b = core.toz(a), core.toz(b)
        return z.Or(self.order(a) < self.order(b), z.And(self.order(a) == self.order(b), a <= b))

    def empty(self):
        z = self.S.z3
        k = z.Int("ek")
        return z.Not(z.Exists([k], self.isin(k)))

    def __bool__(self):
        return not bool(self.S.core.wrapz(self.empty()))

    def top(self):
        S, z = self.S, self.S.z3
        if self.top_ is None:
            S.prove("queue-not-empty", S.core.wrapz(z.Not(self.empty())))
            t = S.int(f"top{len(S.c.inputs)}", 0)
            k = z.Int("tk")
            S.c.add(self.isin(t))
            S.c.add(z.ForAll([k], z.Implies(self.isin(k), self.before(t, k)), patterns=[self.member(k)]))
            job = self.job if bool(t == self.jid) else ex.MockedTimedJob(None, (), {}, self.job._executor)
            self.top_ = (t, ex.OrderedJobs(S.core.wrapz(self.order(S.core.toz(t))), t, job))
        return self.top_

    def __getitem__(self, k):
        self.S.prove("head-only", k == 0)
        return self.top()[1]

    def pop(self):
        t, x = self.top()
        self.gone.append(t)
        self.top_ = None
        return x


@contract("C18", [E + "check_is_done", E + "notify_read", J + "done", J + "result"], trials=10, max_paths=3000)
def done_and_result(S):
    """any set of unread jobs: the job is done exactly if no unread job ends before it; reading the result is refused
    otherwise, and removes exactly this job and moves the clock to its end (never backwards)"""
    if not S.symbolic:
        return
    S.trusted("heapq: element 0 of the list is its minimum, heappop removes it")
    z, core = S.z3, S.core
    executor = ex.MockedTimedExecutor(batch_mode=S.choose("batch", [False, True]))
    t0 = executor._time = S.real("time", 0)
    log = []
    out = object()

    def func(*args):
        log.append(args)
        return out

    job = executor.submit(func, 1)
    executor._to_be_processed.clear()
    jid = S.int("job", 0)
    heap = executor._steady_priority_queue = _Heap(S, job, jid)
    read = job._is_read = S.choose("already_read", [False, True])
    job._delay = S.real("delay", 0)
    job._time = S.real("submitted", 0)
    S.assume(job._time <= t0)
    job._output = out
    S.c.add(heap.order(core.toz(jid)) == core.toz(job._delay + job._time))
    # class invariant: the queue is the set of the submitted jobs which were not read; they end after the clock
    S.c.add(heap.member(core.toz(jid)) if not read else z.Not(heap.member(core.toz(jid))))
    if read:
        S.assume(t0 >= job._time + job._delay)
    processed = []
    S.patch(executor, "_process_submissions", lambda: processed.append(1))
    fake = type("H", (), {"heappop": staticmethod(lambda h: h.pop() if h is heap else S.fail("pops-its-queue"))})
    S.patch(ex, "heapq", fake)
    k = z.Int("anyjob")
    first = z.ForAll([k], z.Implies(heap.isin(k), heap.before(jid, k)))
    op = S.choose("operation", ["done", "result"])
    if op == "result" and read:
        return  # precondition: a result is read once (see the known finding of `reread`)
    if op == "done":
        d = job.done()
        S.prove("submissions-first", len(processed) >= 1)
        S.prove("done-iff-none-ends-before", bool(d) if executor.batch_mode or read else S.iff(core.wrapz(first), bool(d)))
        S.prove("done-changes-nothing", heap.gone == [] and executor._time is t0 and job._is_read == read)
        return
    try:
        got = job.result()
    except RuntimeError:
        S.prove("refused-only-before-its-turn", False if executor.batch_mode or read else S.lnot(core.wrapz(first)))
        S.prove("refusal-changes-nothing", heap.gone == [] and executor._time is t0 and not job._is_read)
        return
    S.prove("value", got is out and log == [])
    S.prove("read-only-when-done", True if executor.batch_mode or read else core.wrapz(first))
    S.prove("marked", job._is_read)
    end = job._time + job._delay
    S.prove("clock", S.eq(executor._time, S.ite(end > t0, end, t0)))
    if executor.batch_mode or read:
        S.prove("none-removed", heap.gone == [])
    else:
        S.prove("one-removed", len(heap.gone) == 1)
        S.prove("removes-itself", heap.gone[0] == jid)


# ------------------------------------------------------------------------------------- histories
class _Ref:
    def __init__(self, S, batch):
        self.S, self.batch, self.time, self.jobs = S, batch, 0.0, []

    def submit(self, delay):
        self.jobs.append({"end": self.time + self.S.ite(delay > 0, delay, 0), "k": len(self.jobs), "read": False})

    def done(self, k):
        S, x = self.S, self.jobs[k]
        if self.batch or x["read"]:
            return True
        return S.land(*[S.lor(x["end"] < y["end"], S.land(x["end"] == y["end"], k < y["k"])) for y in self.jobs if not y["read"] and y is not x])

    def read(self, k):
        x = self.jobs[k]
        x["read"] = True
        self.time = self.S.ite(x["end"] > self.time, x["end"], self.time)


def _run(S, steps, njobs, draws):
    batch = S.choose("batch", [False, True]) if not S.symbolic else False
    executor, ref = ex.MockedTimedExecutor(batch_mode=batch), _Ref(S, batch)
    delays = S.reals("delays", njobs)
    func = _Delayed(lambda k: delays[k])
    jobs = []
    for s in range(steps):
        ops = (["submit"] if len(jobs) < njobs else []) + (["done", "read"] if jobs else [])
        op = S.choose(f"op{s}", ops)
        if op == "submit":
            ref.submit(delays[len(jobs)])
            jobs.append(executor.submit(func, len(jobs)))
            continue
        k = S.choose(f"job{s}", list(range(len(jobs))))
        before = executor.time
        want = ref.done(k)
        if op == "read" and jobs[k]._is_read:
            continue  # precondition: a result is read once (see `reread`)
        if op == "done":
            S.prove("done-iff-first", S.iff(jobs[k].done(), want))
            S.prove("clock-unchanged", executor.time is before)
        else:
            try:
                out = jobs[k].result()
            except RuntimeError:
                S.prove("refused-only-if-not-done", S.lnot(want))
                S.prove("clock-unchanged", executor.time is before)
            else:
                S.prove("delivered-only-if-done", want)
                S.prove("its-value", out == ("value", (k,), ()))
                ref.read(k)
                S.prove("clock", S.eq(executor.time, ref.time))
                S.prove("never-backwards", executor.time >= before)
    S.prove("each-run-at-most-once", len({c[0] for c in func.calls}) == len(func.calls))
    S.prove("runs-its-arguments", all(c[1] == {} and 0 <= c[0][0] < len(jobs) for c in func.calls))
    S.prove("one-done-at-a-time", batch or S.lor(*[j.done() for j, r in zip(jobs, ref.jobs) if not r["read"]], all(r["read"] for r in ref.jobs)))


@partial("C18", [E + "submit", E + "check_is_done", E + "notify_read", J + "result", J + "done"], trials=10, conc_s=2, max_paths=6000,
         bound="3 jobs with any delays, every schedule of 3 reads")
def schedules(S):
    """every order of reads of three jobs, submitted at once or in between, any delays, with the real heapq"""
    executor, ref = ex.MockedTimedExecutor(), _Ref(S, False)
    delays = S.reals("delays", 3)
    func = _Delayed(lambda k: delays[k])
    jobs = []
    for s in range(3):
        n = 1 if s == 0 else 0
        while len(jobs) < n or (len(jobs) < 3 and (s == 2 or S.choose(f"submit{s}{len(jobs)}", [False, True]))):
            ref.submit(delays[len(jobs)])
            jobs.append(executor.submit(func, len(jobs)))
        k = S.choose(f"job{s}", list(range(len(jobs))))
        if jobs[k]._is_read:
            continue  # precondition: a result is read once (see `reread`)
        before, want = executor.time, ref.done(k)
        try:
            out = jobs[k].result()
        except RuntimeError:
            S.prove("refused-only-if-not-done", S.lnot(want))
            S.prove("clock-unchanged", S.eq(executor.time, before))
        else:
            S.prove("delivered-only-if-done", want)
            S.prove("its-value", out == ("value", (k,), ()))
            ref.read(k)
            S.prove("clock", S.eq(executor.time, ref.time))
            S.prove("never-backwards", executor.time >= before)
    for k, j in enumerate(jobs):
        S.prove("done-iff-first", S.iff(j.done(), ref.done(k)))
    S.prove("each-run-once", sorted(c[0][0] for c in func.calls) == list(range(len(jobs))))


@bounded("C18", [E + "submit", E + "check_is_done", E + "notify_read", J + "result", J + "done", J + "process"], trials=300,
         bound="random schedules of up to 60 operations on 15 jobs, steady and batch mode")
def histories(S):
    """long random schedules compared with a reference executor"""
    _run(S, S.size("steps", 1, 60), S.choose("njobs", [1, 2, 5, 15]), True)


@bounded("C18", [J + "result", E + "notify_read"], trials=20, bound="jobs read a second time, at most 3 jobs")
def reread(S):
    """as with the futures it simulates, the result of a job can be read again, with no effect on the other jobs"""
    n = S.choose("njobs", [1, 2, 3])
    executor = ex.MockedTimedExecutor(batch_mode=S.choose("batch", [False, True]))
    jobs = [executor.submit(lambda k: 10 + k, k) for k in range(n)]
    ok = jobs[0].result() == 10
    try:
        ok = ok and jobs[0].result() == 10 and [j.result() for j in jobs[1:]] == [10 + k for k in range(1, n)]
    except (RuntimeError, IndexError, KeyError, ValueError, AssertionError):
        ok = False
    S.prove("read-again", ok)


@bounded("C18", [E + "submit", M + "MockedTimedExecutor.time"], trials=120, bound="random search with up to 6 workers and 25 evaluations")
def minimization(S):
    """an optimizer run on the simulated executor is told the results in the order of their simulated ends, the clock following"""
    delays = S.reals("delays", 25, lo=0, hi=4)
    batch = S.choose("batch", [False, True])
    executor = ex.MockedTimedExecutor(batch_mode=batch)
    log = []

    class F(ExperimentFunction):
        def __init__(self):
            super().__init__(self._f, p.Scalar())
            self.n = 0

        def _f(self, x):
            self.n += 1
            return float(self.n)

        def __call__(self, x):
            return self._f(x)

        def compute_pseudotime(self, input_parameter, loss):
            return delays[int(loss) - 1]

    f = F()
    nw = S.size("workers", 1, 6)
    budget = S.size("budget", 1, 25)
    opt = ng.optimizers.registry["OnePlusOne" if S.choose("opt", [0, 1]) else "RandomSearch"](p.Scalar(), budget=budget, num_workers=nw)
    opt.parametrization.random_state.seed(3)
    opt.register_callback("tell", lambda o, c, v: log.append((executor.time, v)))
    opt.minimize(f, executor=executor, batch_mode=batch)
    S.prove("one-run-per-evaluation", f.n == budget and sorted(v for _, v in log) == [float(k + 1) for k in range(budget)])
    S.prove("clock-monotonic", all(a[0] <= b[0] for a, b in zip(log, log[1:])))
    if batch:
        return
    # reference: nw jobs at once, each told job is followed by the submission of another
    import heapq

    h, t, k, want = [], 0.0, 0, []
    while k < min(nw, budget):
        heapq.heappush(h, (t + delays[k], k))
        k += 1
    while h:
        e, i = heapq.heappop(h)
        t = max(t, e)
        want.append((t, float(i + 1)))
        if k < budget:
            heapq.heappush(h, (t + delays[k], k))
            k += 1
    S.prove("steady-state-order", log == want, log=log, want=want)
