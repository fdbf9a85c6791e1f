"""C24: population-based algorithms never replace an individual by a worse one."""
import sys
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import contract, partial, bounded
from ngvc.seq import SSeq
from nevergrad.optimization import base, differentialevolution as demod, es, optimizerlib
from nevergrad.parametrization import parameter as p

D = "nevergrad.optimization.differentialevolution:_DE."
E = "nevergrad.optimization.es:_EvolutionStrategy."
P = "nevergrad.optimization.optimizerlib:_PSO."
_this = sys.modules[__name__]


class _Ind:
    """an individual with its loss"""

    def __init__(self, uid, loss, lineage=None):
        self.uid, self.loss, self._losses = uid, loss, None
        self.heritage = {"lineage": uid if lineage is None else lineage}
        self.parents_uids = []

    @property
    def losses(self):
        return np.array([self.loss])


class _Pop:
    """any population: individuals 0..n-1 under their number"""

    def __init__(self, S, name="pop"):
        self.S, self.n = S, S.int(name + "_size", 0)
        self.losses = S.arr(name + "_losses", self.n)
        self.cache, self.log = {}, []

    def member(self, k):
        q = str(k)
        if q not in self.cache:
            self.cache[q] = _Ind(k, self.S.core.wrapz(self.losses.fn(self.S.core.toz(k))))
        return self.cache[q]

    def inside(self, uid):
        return self.S.land(uid >= 0, uid < self.n)

    def __contains__(self, uid):
        return bool(self.inside(uid))

    def __getitem__(self, uid):
        self.S.prove("known-uid", self.inside(uid))
        return self.member(uid)

    def get(self, uid, default=None):
        return self.member(uid) if uid in self else default

    def __setitem__(self, uid, x):
        self.log.append(("set", uid, x))

    def __delitem__(self, uid):
        self.S.prove("deletes-known", self.inside(uid))
        self.log.append(("del", uid))

    def pop(self, uid):
        x = self[uid]
        del self[uid]
        return x

    def _ngvc_len(self):
        return self.n + sum({"set": 1, "del": -1}[o[0]] for o in self.log)

    __len__ = _ngvc_len

    def items(self):
        return SSeq(self.n, lambda k: (k, self.member(k)), list)

    def values(self):
        return SSeq(self.n, self.member, list)

    def keys(self):
        return SSeq(self.n, lambda k: k, list)

    def _ngvc_iter(self):
        return self.keys()

    __iter__ = None


class _Queue:
    def __init__(self):
        self.log = []

    def tell(self, uid):
        self.log.append(("tell", uid))

    def discard(self, uid):
        self.log.append(("discard", uid))


class _RealPop(dict):
    """concrete counterpart: a dict which records its changes"""

    def __init__(self, losses):
        super().__init__({k: _Ind(k, x) for k, x in enumerate(losses)})
        self.log = []

    def __setitem__(self, k, x):
        self.log.append(("set", k, x))
        super().__setitem__(k, x)

    def __delitem__(self, k):
        self.log.append(("del", k))
        super().__delitem__(k)

    def pop(self, k, *d):
        x = super().pop(k, *d)
        self.log.append(("del", k))
        return x


def _population(S):
    if S.symbolic:
        q = _Pop(S)
        return q, q.n, lambda k: S.core.wrapz(q.losses.fn(S.core.toz(k)))
    n = S.size("pop_size", 0, 6)
    losses = S.reals("pop_losses", n)
    return _RealPop(losses), n, lambda k: losses[k]


def _opt(cls, **attrs):
    opt = object.__new__(cls)
    opt.__dict__.update(attrs)
    return opt


@contract("C24", [D + "_internal_tell_candidate"], trials=200)
def de_tell(S):
    """any population: the trial replaces the individual it was made from exactly if it is not worse, and nothing else changes"""
    pop, n, L = _population(S)
    q = _Queue()
    opt = _opt(demod._DE, population=pop, _uid_queue=q, objective_weights=None, num_objectives=1, _config=demod.DifferentialEvolution(
        multiobjective_adaptation=S.choose("adaptation", [False, True]), propagate_heritage=S.choose("propagate", [False, True])))
    opt.__class__ = type("DE1", (demod._DE,), {"num_objectives": 1})
    uid, loss = S.int("lineage", -1), S.real("loss")
    trial = _Ind("trial", loss, uid)
    trial.heritage["extra"] = 12
    fallback = []
    S.patch(opt, "_internal_tell_not_asked", lambda c, v: fallback.append((c, v)), both=True)
    inside = S.land(uid >= 0, uid < n)
    parent = pop[uid] if not S.symbolic and inside else (pop.member(uid) if S.symbolic else None)
    opt._internal_tell_candidate(trial, loss)
    if fallback:
        S.prove("fallback-only-without-parent", S.lnot(inside))
        S.prove("fallback", fallback == [(trial, loss)] and pop.log == [] and q.log == [])
        return
    S.prove("parent-known", inside)
    S.prove("told-once", len(q.log) == 1 and q.log[0][0] == "tell" and q.log[0][1] is uid or q.log == [("tell", uid)])
    if pop.log:
        S.prove("replaces-only-if-not-worse", loss <= L(uid))
        S.prove("replaces-its-parent-only", len(pop.log) == 1 and pop.log[0][0] == "set" and pop.log[0][2] is trial and S.land(pop.log[0][1] == uid))
    else:
        S.prove("kept-only-if-better", loss > L(uid))
        S.prove("heritage-propagated", ("extra" in parent.heritage) == opt._config.propagate_heritage)
    S.prove("losses-untouched", parent.loss is L(uid) or S.eq(parent.loss, L(uid)))


@contract("C24", [D + "_internal_tell_not_asked"], trials=200)
def de_not_asked(S):
    """any population: a foreign point enters if there is room, or instead of the worst individual if it is better"""
    pop, n, L = _population(S)
    q = _Queue()
    llambda = S.int("llambda", 1)
    S.assume(n <= llambda)
    opt = _opt(demod._DE, population=pop, _uid_queue=q, llambda=llambda)
    opt.__class__ = type("DE1", (demod._DE,), {"num_objectives": 1})
    loss = S.real("loss")
    new = _Ind("new", loss, "other")
    opt._internal_tell_not_asked(new, loss)
    _entered(S, pop, n, L, llambda, q, new, loss, strict=True)


def _entered(S, pop, n, L, llambda, q, new, loss, strict, key="new"):
    dels = [o for o in pop.log if o[0] == "del"]
    sets = [o for o in pop.log if o[0] == "set"]
    S.prove("enters-at-most-once", len(sets) <= 1 and all(o[1] is key and o[2] is new for o in sets))
    S.prove("at-most-one-leaves", len(dels) <= 1 and len(sets) >= len(dels))
    size = n - len(dels) + len(sets)
    S.prove("size", S.lor(size <= llambda, size <= n))
    S.prove("queue-follows", [o[0] for o in q.log] == ["discard"] * len(dels) + ["tell"] * len(sets) and (not sets or q.log[-1][1] is key))
    if dels:
        k = dels[0][1]
        S.prove("queue-same-uid", q.log[0][1] is k or S.land(q.log[0][1] == k))
        S.prove("leaves-only-when-full", n >= llambda)
        S.prove("worst-leaves", S.forall(n, lambda i: L(i) <= L(k)))
        S.prove("leaves-for-better", loss < L(k) if strict else loss <= L(k))
    elif sets:
        S.prove("enters-if-room", n < llambda)
    else:
        S.prove("refused-only-if-full", n >= llambda)
        S.prove("refused-only-if-worst", S.forall(n, lambda i: L(i) <= loss))


@contract("C24", [P + "_internal_tell_not_asked"], trials=200)
def pso_not_asked(S):
    """any swarm: a foreign point enters if there is room, or instead of the worst particle if it is not worse"""
    pop, n, L = _population(S)
    q = _Queue()
    llambda = S.int("llambda", 1)
    S.assume(n <= llambda)
    best = _Ind("best", S.real("best") if S.choose("has_best", [True, False]) else None)
    new = _Ind("new", S.real("loss"), "other")
    if S.choose("speed", [True, False]):
        new.heritage["speed"] = 3
    speed = dict(new.heritage)
    rng = type("R", (), {"uniform": lambda self, *a: "drawn"})()
    opt = _opt(optimizerlib._PSO, population=pop, _uid_queue=q, llambda=llambda, _best=best)
    opt.__class__ = type("PSO1", (optimizerlib._PSO,), {"_rng": rng, "parametrization": type("PP", (), {"dimension": 2})()})
    opt._internal_tell_not_asked(new, new.loss)
    _entered(S, pop, n, L, llambda, q, new, new.loss, strict=False)
    if any(o[0] == "set" for o in pop.log):
        S.prove("has-speed", new.heritage["speed"] == speed.get("speed", "drawn"))
        S.prove("best", opt._best is (new if best.loss is None or bool(new.loss < best.loss) else best))
    else:
        S.prove("best-kept", opt._best is best)


@contract("C24", [P + "_internal_tell_candidate"], trials=200)
def pso_tell(S):
    """any swarm: the particle moves, its best position and the best of the swarm are never replaced by worse ones"""
    pop, n, L = _population(S)
    q = _Queue()
    uid, loss = S.int("lineage", -1), S.real("loss")
    best = _Ind("best", S.real("best") if S.choose("has_best", [True, False]) else None)
    new = _Ind("trial", loss, uid)
    own = None
    if S.choose("has_own_best", [True, False]):
        own = new.heritage["best_parent"] = _Ind("own", S.real("own"))
    opt = _opt(optimizerlib._PSO, population=pop, _uid_queue=q, _best=best)
    fallback = []
    S.patch(opt, "_internal_tell_not_asked", lambda c, v: fallback.append((c, v)), both=True)
    opt._internal_tell_candidate(new, loss)
    inside = S.land(uid >= 0, uid < n)
    if fallback:
        S.prove("fallback-only-without-parent", S.lnot(inside))
        S.prove("fallback", fallback == [(new, loss)] and pop.log == [] and q.log == [] and opt._best is best)
        return
    S.prove("parent-known", inside)
    S.prove("told-once", len(q.log) == 1 and q.log[0][0] == "tell" and S.land(q.log[0][1] == uid))
    S.prove("moves", len(pop.log) == 1 and pop.log[0][0] == "set" and pop.log[0][2] is new and S.land(pop.log[0][1] == uid))
    S.prove("best-of-swarm", opt._best is (new if best.loss is None or bool(loss < best.loss) else best))
    mine = new.heritage["best_parent"]
    S.prove("own-best", mine is new or mine is own)
    S.prove("own-best-not-worse", S.land(mine.loss <= loss, own is None or bool(mine.loss <= own.loss)))


@contract("C24", [E + "_internal_tell_candidate"], trials=200)
def es_tell(S):
    """evolution strategies without offspring pool: the individual is replaced exactly by a better one;
    with a pool, the candidate is kept exactly once and the selection happens exactly when the pool is full"""
    pop, n, L = _population(S)
    q = _Queue()
    uid, loss = S.int("lineage", -1), S.real("loss")
    popsize, offsprings = S.int("popsize", 1), S.choose("pool", [None, 1])
    nwait = S.choose("waiting", [0, 1, 3])
    if offsprings is not None:
        offsprings = S.int("offsprings", 1)
        S.assume(nwait < offsprings)
    waiting = [_Ind(("w", k), 0.0) for k in range(nwait)]
    new = _Ind(-7, loss, uid)
    parent = S.choose("parent", ["none", "some"])
    if parent == "some":
        new.parents_uids = [S.int("parent_uid", -1)]
    selected = []
    opt = _opt(es._EvolutionStrategy, _population=pop, _uid_queue=q, _waiting=list(waiting), _config=type("C", (), {"offsprings": offsprings, "popsize": popsize})())
    S.patch(opt, "_select", lambda: selected.append(list(opt._waiting)), both=True)
    if offsprings is None:
        S.assume(n <= popsize)
    orig = _Pop.__contains__

    def contains(self, u):
        return False if isinstance(u, str) else orig(self, u)

    S.patch(_Pop, "__contains__", contains, both=True)
    opt._internal_tell_candidate(new, loss)
    inside = S.land(uid >= 0, uid < n)
    if offsprings is None and not bool(inside) and bool(n >= popsize):
        _entered(S, pop, n, L, popsize, q, new, loss, strict=True, key=uid)
        return
    if offsprings is None:
        S.prove("told-once", len(q.log) == 1 and q.log[0][0] == "tell" and S.land(q.log[0][1] == uid))
        S.prove("no-pool", opt._waiting == waiting and selected == [])
        if pop.log:
            S.prove("replaces-only-its-parent", len(pop.log) == 1 and pop.log[0][0] == "set" and pop.log[0][2] is new and S.land(pop.log[0][1] == uid))
            S.prove("replaces-only-if-better", S.implies(inside, lambda: loss < L(uid)))
        else:
            S.prove("kept-only-if-not-worse", S.land(inside, loss >= L(uid) if S.symbolic or inside else False))
        return
    put = [o for o in pop.log if o[0] == "set"]
    S.prove("never-removes", len(put) == len(pop.log))
    waits = [x for x in opt._waiting if x is new]
    S.prove("kept-once", len(put) + len(waits) == 1)
    S.prove("pool-grows-by-it-only", opt._waiting == waiting + waits)
    if put:
        S.prove("enters-under-its-uid", put[0][1] == -7 and put[0][2] is new and q.log == [("tell", -7)])
        S.prove("enters-if-room", n < popsize)
    else:
        S.prove("queue-untouched", q.log == [])
    S.prove("selects-iff-full", S.iff(len(selected) == 1, len(opt._waiting) >= offsprings))
    S.prove("selects-once", len(selected) <= 1)


# ---------------------------------------------------------------------------------------------------- asks
class _Asked(_Ind):
    """an individual which can be spawned, mutated and recombined; its data is a vector of size d"""

    S = d = None

    def __init__(self, uid, loss=None, lineage=None):
        super().__init__(uid, loss, lineage)
        self.log, self._frozen, self._meta, self.data = [], False, {}, None

    def spawn_child(self):
        c = _Asked(("child", self.uid), lineage=self.heritage["lineage"])
        c.parents_uids = [self.uid]
        c.data = self.get_standardized_data(None)
        c.parent = self
        return c

    def mutate(self):
        self.log.append("mutate")

    def recombine(self, *others):
        self.log.append(others)

    def get_standardized_data(self, reference):
        if self.data is None:
            self.data = self.S.arr("data_%d" % len(self.S.drawn), self.d, -5, 5)
            self.S.drawn.append(self)
        return self.data

    def set_standardized_data(self, data, reference=None):
        self.data = data
        return self


class _Maker:
    """the parametrization: gives new individuals"""

    def __init__(self, S, d):
        self.S, self.dimension, self.made = S, d, []

    def sample(self):
        c = _Asked(-5)
        self.made.append(c)
        return c

    def spawn_child(self):
        return self.sample()


class _AskQueue:
    """gives the uid of some individual"""

    def __init__(self, S, n):
        self.S, self.n, self.asked, self.given = S, n, self, []
        self.added = []

    def ask(self):
        u = self.S.int("asked_uid", 0, 2)
        self.S.assume(u < self.n)
        self.given.append(u)
        return u

    def add(self, uid):
        self.added.append(uid)


class _Draws:
    """any draws"""

    def __init__(self, S):
        self.S, self.k, self.last = S, 0, None

    def _next(self):
        self.k += 1
        return f"draw{self.k}"

    def rand(self):
        x = self.last = self.S.real(self._next(), 0, 1)
        self.S.assume(x < 1)
        return x

    def randint(self, lo, hi=None):
        lo, hi = (0, lo) if hi is None else (lo, hi)
        x = self.S.anyint(self._next(), 0, 2)
        self.S.assume(self.S.land(lo <= x, x < hi))
        return x

    def choice(self, seq, size=None, replace=True):
        i = self.S.anyint(self._next(), 0, 2)
        self.S.assume(self.S.land(i >= 0, i < self.S.len(seq)))
        return seq[i]

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.S.arr(self._next(), size, -5, 5) if size is not None else self.S.real(self._next(), -5, 5)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        x = self.S.arr(self._next(), size, lo, hi)
        return x


def _asking(S, cls, **attrs):
    """an optimizer with any population of individuals which can be spawned"""
    d = S.int("dim", 1, 4)
    _Asked.S, _Asked.d, S.drawn = S, d, []
    S.patch(_this, "_Ind", _Asked, both=True)
    pop, n, _ = _population(S)
    q, par = _AskQueue(S, n), _Maker(S, d)
    opt = _opt(cls, _uid_queue=q, **attrs)
    num = S.int("num_ask", 0, 12)
    opt.__class__ = type("Asking", (cls,), {"_rng": _Draws(S), "parametrization": par, "num_ask": num, "dimension": d, "num_objectives": 1})
    return opt, pop, n, q, par, num


def _member(S, pop, u):
    return pop.member(u) if S.symbolic else pop[u]


def _newcomer(S, pop, q, par, out):
    S.prove("new", len(par.made) == 1 and out is par.made[0] and not q.given)
    S.prove("joins-under-its-uid", len(pop.log) == 1 and pop.log[0][0] == "set" and pop.log[0][1] == out.uid and pop.log[0][2] is out)
    S.prove("queued-once", q.added == [out.uid])
    S.prove("own-lineage", out.heritage["lineage"] == out.uid)


@contract("C24", [E + "_internal_ask_candidate"], trials=200)
def es_ask(S):
    """any population: asking never removes nor replaces an individual; the candidate is a new individual, which joins, while there is room at the beginning,
    and then a mutated child of the individual which the queue gives, recombined with an individual of the population at the required rate"""
    popsize, ratio = S.int("popsize", 1, 8), S.choose("ratio", [0.0, 0.3])
    cfg = type("C", (), {"popsize": popsize, "recombination_ratio": ratio})()
    opt, pop, n, q, par, num = _asking(S, es._EvolutionStrategy, _config=cfg)
    opt._population = pop
    room = S.land(num < popsize, n < popsize)
    S.assume(S.lor(room, n > 0))
    out = opt._internal_ask_candidate()
    if par.made:
        S.prove("new-only-if-room", room)
        _newcomer(S, pop, q, par, out)
        return
    S.prove("child-only-without-room", S.lnot(room))
    S.prove("population-kept", pop.log == [] and q.added == [] and len(q.given) == 1)
    S.prove("child-of-the-queue", out.parent is _member(S, pop, q.given[0]) and out.log[0] == "mutate")
    crossed = out.log[1:]
    draws = opt._rng.k
    S.prove("recombines-at-most-once", len(crossed) <= 1 and (ratio != 0 or draws == 0))
    if ratio:
        S.prove("rate", S.iff(len(crossed) == 1, opt._rng.last < ratio))
    if crossed:
        S.prove("with-an-individual", len(crossed[0]) == 1 and S.land(pop.inside(crossed[0][0].uid) if S.symbolic else crossed[0][0].uid in pop))


@contract("C24", [P + "_internal_ask_candidate"], trials=200)
def pso_ask(S):
    """any swarm: asking never removes nor replaces a particle; new particles, with their own speed, join while there is room, possibly as mirror images of the
    previous one; the candidate is then a moved particle, of the lineage which the queue gives"""
    opp = S.choose("opposition", ["none", "qo", "so", "sqo"])
    cfg = type("C", (), {"qo": opp != "none", "so": opp == "so", "sqo": opp == "sqo"})()
    llambda = S.int("llambda", 1, 5)
    opt, pop, n, q, par, num = _asking(S, optimizerlib._PSO, _config=cfg)
    d = par.dimension
    opt.population, opt.llambda, opt._eps = pop, llambda, S.choose("eps", [None, 0, 1e-10])
    mirror = S.choose("mirror", [False, True])
    prev = _Asked(-9) if mirror and cfg.qo else None
    speed0 = S.arr("previous_speed", d, -2, 2) if mirror and cfg.sqo else None
    opt.previous_candidate, opt.previous_speed = prev, speed0
    moved = []
    S.patch(opt, "_spawn_mutated_particle", lambda x: moved.append(x) or x.spawn_child(), both=True)
    S.patch(np, "exp", lambda x: S.real("exp", 0.01, 1), both=True)
    S.assume(S.lor(n < llambda, n > 0))
    out = opt._internal_ask_candidate()
    if par.made:
        S.prove("new-only-if-room", n < llambda)
        _newcomer(S, pop, q, par, out)
        speed = out.heritage["speed"]
        S.prove("speed", S.len(speed) == d)
        if prev is not None:
            x, y = prev.data, out.data
            i, j = S.int("coord", 0, 3), S.int("coord2", 0, 3)
            S.assume(S.land(i < d, j < d))
            S.prove("mirror", S.eq(S.at(x, i) * S.at(y, j), S.at(x, j) * S.at(y, i)) and S.land(S.at(x, i) * S.at(y, i) <= 0))
            S.prove("pair-done", opt.previous_candidate is None)
        elif cfg.qo:
            S.prove("first-of-pair", opt.previous_candidate is out)
        return
    S.prove("moves-only-without-room", n >= llambda)
    S.prove("swarm-kept", pop.log == [] and q.added == [] and len(q.given) == 1)
    S.prove("particle-of-the-queue", len(moved) == 1 and moved[0] is _member(S, pop, q.given[0]) and out.parent is moved[0])
    S.prove("lineage", out.heritage["lineage"] is q.given[0])


@contract("C24", [D + "_internal_ask_candidate"], trials=200)
def de_ask(S):
    """any population: asking never removes nor replaces an individual; new individuals join while there is room; then the candidate is a trial for the individual
    which the queue gives: the differential donor made of it, of the best point and of two individuals, crossed with it"""
    co = S.choose("crossover", ["dimension", 0.5, "twopoints", "parametrization", "voronoi"])
    init = S.choose("initialization", ["parametrization", "gaussian", "sampler"])
    F1, F2 = S.real("F1", 0, 2), S.real("F2", 0, 2)
    cfg = type("C", (), {"initialization": init if init != "sampler" else "LHS", "crossover": co, "F1": F1, "F2": F2, "multiobjective_adaptation": True})()
    llambda = S.int("llambda", 1, 5)
    opt, pop, n, q, par, num = _asking(S, demod._DE, _config=cfg)
    d = par.dimension
    opt.population, opt.llambda, opt.scale = pop, llambda, S.real("scale", 0.1, 2)
    opt.sampler = type("Sampler", (), {"ask": lambda self: par.sample()})() if init == "sampler" else None
    best = _Asked(-8)
    opt.current_bests = {"pessimistic": type("V", (), {"parameter": best})()}
    crossed = []

    class _Cross:
        def __init__(self, rng, co, parametrization):
            S.prove("crossover-rate", rng is opt._rng and (S.eq(co, 1.0 / d) if cfg.crossover == "dimension" else co == cfg.crossover) and parametrization is par)

        def apply(self, donor, individual):
            crossed.append((donor.copy(), individual.copy()))
            donor[:] = cut

    cut = S.arr("crossed", d, -5, 5)
    S.patch(demod, "Crossover", _Cross, both=True)
    S.assume(S.lor(n < llambda, n > 0))
    out = opt._internal_ask_candidate()
    if not q.given:
        S.prove("new-only-if-room", n < llambda)
        _newcomer(S, pop, q, par, out)
        return
    S.prove("trial-only-without-room", n >= llambda)
    S.prove("population-kept", pop.log == [] and q.added == [] and len(q.given) == 1)
    parent = _member(S, pop, q.given[0])
    S.prove("trial-of-the-queue", out.parent is parent and out.heritage["lineage"] is q.given[0])
    S.prove("two-more-parents", len(out.parents_uids) == 3 and out.parents_uids[0] is parent.uid)
    a, b = (_member(S, pop, u) for u in out.parents_uids[1:])
    if co == "parametrization":
        S.prove("recombined-once", not crossed and len(out.log) == 1 and out.log[0][0] is par.made[0])
        donor = par.made[0].data
    else:
        S.prove("crossed-once", len(crossed) == 1 and not par.made)
        donor = crossed[0][0]
        S.prove("crossed-with-its-parent", S.forall(d, lambda i: S.eq(S.at(crossed[0][1], i), S.at(parent.data, i))))
        S.prove("data-of-the-crossover", S.forall(d, lambda i: S.eq(S.at(out.data, i), S.at(cut, i))))
    x, xa, xb, xbest = parent.data, a.get_standardized_data(par), b.get_standardized_data(par), best.data
    S.prove("donor", S.forall(d, lambda i: S.eq(S.at(donor, i), S.at(x, i) + F1 * (S.at(xa, i) - S.at(xb, i)) + F2 * (S.at(xbest, i) - S.at(x, i)))))


@partial("C24", [E + "_select"], trials=200, max_paths=6000, bound="up to 2 individuals and 3 waiting candidates, any losses")
def es_select(S):
    """the new population is the best of the candidates which are compared, each once"""
    npop, nwait = S.choose("npop", [0, 1, 2]), S.choose("nwait", [1, 2, 3])
    popsize = S.choose("popsize", [1, 2, 3])
    only = S.choose("only_offsprings", [False, True])
    inds = [_Ind(f"p{k}", S.real(f"p{k}")) for k in range(npop)]
    wait = [_Ind(f"w{k}", S.real(f"w{k}")) for k in range(nwait)]
    shared = npop > 0 and not only and S.choose("shared", [False, True])
    if shared:  # the last individual of the population was told when the population was full: it also waits
        wait[0] = inds[-1]
    q = _Queue()
    q.clear = lambda: q.log.append(("clear",))
    opt = _opt(es._EvolutionStrategy, _population={x.uid: x for x in inds}, _uid_queue=q, _waiting=list(wait), _rank_method=None,
               _config=type("C", (), {"only_offsprings": only, "popsize": popsize})())
    opt.__class__ = type("ES1", (es._EvolutionStrategy,), {"num_objectives": 1})
    opt._select()
    compared = {x.uid: x for x in wait + ([] if only else inds)}
    new = opt._population
    S.prove("from-compared", all(compared.get(u) is x for u, x in new.items()))
    S.prove("size", len(new) == min(popsize, len(compared)))
    S.prove("best-kept", S.land(*[x.loss <= y.loss for x in new.values() for y in compared.values() if y.uid not in new]))
    S.prove("pool-emptied", opt._waiting == [])
    S.prove("queue", q.log[0] == ("clear",) and sorted(o[1] for o in q.log[1:]) == sorted(new) and all(o[0] == "tell" for o in q.log[1:]))


# ------------------------------------------------------------------------------------- histories on the real optimizers
FAMILY = {
    "DE": lambda: ng.optimizers.registry["DE"], "TwoPointsDE": lambda: ng.optimizers.registry["TwoPointsDE"],
    "DEsmall": lambda: ng.families.DifferentialEvolution(popsize=5), "DEmo": lambda: ng.families.DifferentialEvolution(popsize=6, multiobjective_adaptation=True),
    "DEheritage": lambda: ng.families.DifferentialEvolution(popsize=4, propagate_heritage=True), "DEp": lambda: ng.families.DifferentialEvolution(popsize=5, crossover="parametrization"),
    "PSO": lambda: ng.optimizers.registry["PSO"], "PSOsmall": lambda: ng.families.ConfPSO(popsize=4), "RealPSO": lambda: ng.families.ConfPSO(transform="identity", popsize=5),
    "ES": lambda: ng.families.EvolutionStrategy(popsize=4, offsprings=6, only_offsprings=True), "MixES": lambda: ng.families.EvolutionStrategy(popsize=4, offsprings=3),
    "RecMixES": lambda: ng.families.EvolutionStrategy(popsize=5, offsprings=2, recombination_ratio=1), "MutDE": lambda: ng.families.EvolutionStrategy(popsize=4),
    "RecMutDE": lambda: ng.families.EvolutionStrategy(popsize=4, recombination_ratio=0.5), "simple": lambda: ng.families.EvolutionStrategy(popsize=4, offsprings=3, ranker="simple"),
}


def _losses_of(pop):
    return {u: base._loss(c) for u, c in pop.items()}


@bounded("C24", [D + "_internal_ask_candidate", D + "_internal_tell_candidate", D + "_internal_tell_not_asked", P + "_internal_ask_candidate",
                 E + "_internal_ask_candidate", E + "_select"], trials=250, conc_s=9, bound="up to 60 asks, tells in any order and foreign points, 15 configurations, 1 or 2 objectives")
def histories(S):
    """asks, tells and foreign points in any order: elitism, size of the population, no failure"""
    name = S.choose("optimizer", sorted(FAMILY))
    nobj = S.choose("objectives", [1, 1, 1, 2])
    grid = S.choose("values", [3, 1000])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = FAMILY[name]()(p.Array(shape=(2,)), budget=200, num_workers=S.choose("workers", [1, 5]))
    opt.parametrization.random_state.seed(S.seed % 1000)
    if nobj > 1:
        opt.num_objectives = 2
    is_es = isinstance(opt, es._EvolutionStrategy)
    target = opt._config.popsize if is_es else opt.llambda
    attr = "_population" if is_es else "population"
    elitist = nobj == 1 and not isinstance(opt, optimizerlib._PSO) and not (is_es and opt._config.only_offsprings)
    pending, best, told = [], float("inf"), 0
    rng = S.rng
    for k in range(S.size("nops", 1, 90)):
        op = S.choose(f"op{k}", ["ask", "ask", "tell", "tell", "foreign"])
        if op == "ask":
            c = opt.ask()
            S.prove("new-candidate", all(c.uid != x.uid for x in pending))
            pending.append(c)
            continue
        val = S.int(f"loss{k}", 0, grid) / 7.0
        loss = val if nobj == 1 else [val, S.int(f"second{k}", 0, grid) / 7.0]
        before = dict(getattr(opt, attr))
        lb = _losses_of(before)
        if op == "tell":
            if not pending:
                continue
            c = pending.pop(S.int(f"which{k}", 0, 100) % len(pending))
        else:
            c = opt.parametrization.spawn_child(new_value=np.array([val, 1.0 + k]))
        try:
            opt.tell(c, loss)
        except base.errors.TellNotAskedNotSupportedError:
            continue
        told += 1
        after = getattr(opt, attr)
        la = _losses_of(after)
        S.prove("size", len(after) <= max(target, len(before)), size=len(after), target=target)
        S.prove("told-of-compared", all(u in before or x is c or x in opt.__dict__.get("_waiting", []) or is_es for u, x in after.items()))
        if nobj == 1:
            if isinstance(opt, optimizerlib._PSO):
                best = min(best, val) if op == "tell" or any(x is c for x in after.values()) else best
                S.prove("swarm-best", base._loss(opt._best) == best or best == float("inf"))
                S.prove("own-bests", all(x.heritage["best_parent"].loss <= x.loss for x in after.values() if "best_parent" in x.heritage and x.loss is not None and x.heritage["lineage"] in after and x.heritage["best_parent"].loss is not None and x is not c or False))
                if any(x is c for x in after.values()):
                    S.prove("own-best", c.heritage["best_parent"].loss <= val)
            elif elitist:
                S.prove("never-worse", all(la[u] <= lb[u] for u in before if u in after))
                gone = [lb[u] for u in before if u not in after]
                if not is_es:
                    S.prove("only-worst-leaves", all(x >= max(la.values()) - 1e-12 or x > val for x in gone) and len(gone) <= 1)
                b0, b1 = min(lb.values(), default=float("inf")), min(la.values(), default=float("inf"))
                S.prove("best-never-worse", b1 <= b0)
                if op == "tell" and not is_es and val < b0:
                    S.prove("improvement-kept", b1 == val)
        # the queue only knows living individuals
        S.prove("queue-living", all(u in after for u in list(opt._uid_queue.told)) and (is_es or all(u in after for u in opt._uid_queue.asked)),
                queue=str(list(opt._uid_queue.told)))
    # everything pending can still be told, then asked again
    for k, c in enumerate(pending):
        opt.tell(c, 100.0 + k if nobj == 1 else [100.0, 1.0])
    for k in range(3 * target):
        c = opt.ask()
        opt.tell(c, 50.0 if nobj == 1 else [50.0, 1.0 + k])
    S.prove("size-at-end", len(getattr(opt, attr)) <= target)
