"""C08/C23 at the level of the user: arbitrary histories of asks, suggestions, tells and refused tells."""
import copy
import warnings
import numpy as np
import nevergrad as ng
from ngvc.harness import bounded
from nevergrad.common import errors
from nevergrad.optimization import base
from nevergrad.optimization.optimizerlib import registry
from nevergrad.parametrization import parameter as p
from contracts import gen

B = "nevergrad.optimization.base:"

NAMES = """OnePlusOne NoisyOnePlusOne OptimisticNoisyOnePlusOne DiscreteOnePlusOne FastGADiscreteOnePlusOne PortfolioDiscreteOnePlusOne
DoubleFastGADiscreteOnePlusOne RecombiningPortfolioDiscreteOnePlusOne AdaptiveDiscreteOnePlusOne AnisotropicAdaptiveDiscreteOnePlusOne
DiscreteLenglerOnePlusOne LognormalDiscreteOnePlusOne CauchyOnePlusOne CMA DiagonalCMA FCMA TBPSA NaiveTBPSA EDA PCEDA MEDA
DE TwoPointsDE OnePointDE RotationInvariantDE LhsDE QrDE MiniDE NoisyDE GeneticDE ES RecES MixES RecMixES OnePlusLambda NonNSGAIIES
PSO RealSpacePSO QOPSO SQOPSO RandomSearch ScrHammersleySearch HaltonSearch LHSSearch QORandomSearch ORandomSearch CauchyLHSSearch
MetaRecentering Portfolio NoisyBandit SPSA XNES IsoEMNA AnisoEMNA NaiveIsoEMNA CMandAS3
SplitDE SplitOptimizer ASCMADEthird MultiCMA MultiScaleCMA ChainDEwithR ChainCMAwithLHS SARandomSearch NoisySplit""".split()
NAMES = [n for n in NAMES if n in registry]


def _param(r):
    k = r.randint(6)
    if k <= 1:
        return p.Array(shape=(2,)), lambda: r.normal(size=2)
    if k == 2:
        return p.Array(init=np.zeros(3)).set_bounds(-4, 4), lambda: r.uniform(-4, 4, size=3)
    if k == 3:
        return p.Scalar(lower=-3, upper=5).set_integer_casting(), lambda: int(r.randint(-3, 6))
    if k == 4:
        return p.Dict(x=p.Scalar(), y=p.Choice(["a", "b", "c"], deterministic=True)), lambda: dict(x=float(r.normal()), y=str(r.choice(["a", "b", "c"])))
    ins = p.Instrumentation(p.Array(shape=(2,)), z=p.Scalar(lower=0, upper=1))
    return ins, lambda: ((r.normal(size=2),), dict(z=float(r.uniform(0, 1))))


class _Spy:
    """counts the outermost calls of the two entry points of the algorithm"""

    def __init__(self, opt):
        self.depth, self.calls = 0, []
        for name in ("_internal_tell_candidate", "_internal_tell_not_asked"):
            setattr(opt, name, self.wrap(name, getattr(opt, name)))

    def wrap(self, name, func):
        def call(candidate, loss):
            if not self.depth:
                self.calls.append((name, candidate, loss))
            self.depth += 1
            try:
                return func(candidate, loss)
            finally:
                self.depth -= 1

        return call


@bounded("C08", [B + "Optimizer.ask", B + "Optimizer.suggest", B + "Optimizer.tell", B + "Optimizer.num_objectives"], trials=160, conc_s=40,
         bound="about 65 optimizers, 6 parametrizations, at most 45 operations, at most 6 pending asks, one or two objectives")
def api_accounting(S):
    """random histories of ask / suggest / tell (any pending one, again, foreign, other size) against counters kept by hand"""
    r = gen.rs(S)
    name = NAMES[r.randint(len(NAMES))]
    cls = registry[name]
    par, value = _param(r)
    par.random_state.seed(int(r.randint(2**31)))
    seq = cls.no_parallelization
    workers = 1 if seq else int(r.randint(1, 5))
    opt = cls(par, budget=int(r.randint(60, 120)), num_workers=workers)
    spy = _Spy(opt)
    nobj = 1 if r.rand() < 0.75 else 2
    asks = tells = foreign = 0
    uids, pending, done, sugg = set(), [], [], []
    seen = [0, 0]
    opt.register_callback("ask", lambda o: seen.__setitem__(0, seen[0] + 1))
    opt.register_callback("tell", lambda o, c, l: seen.__setitem__(1, seen[1] + 1))
    info = dict(name=name, nobj=nobj)

    def loss():
        return float(r.normal()) if nobj == 1 else [float(x) for x in r.normal(size=2)]

    for _ in range(int(r.randint(5, 46))):
        op = r.choice(["ask", "tell", "tell", "suggest", "foreign", "again", "wrong"], p=[0.35, 0.2, 0.2, 0.08, 0.08, 0.05, 0.04])
        if op == "ask" and len(pending) < (1 if seq else 6):
            c = opt.ask()
            asks += 1
            S.prove("fresh-uid", c.uid not in uids, **info)
            uids.add(c.uid)
            S.prove("frozen", c._frozen, **info)
            try:
                c.value = c.value
                refused = False
            except RuntimeError:
                refused = True
            S.prove("cannot-be-modified", refused, **info)
            suggested = bool(sugg)
            if sugg:
                S.prove("last-suggestion-first", gen.eqval(c.value, sugg.pop()), got=c.value, **info)
            S.prove("no-loss-yet", c.loss is None, **info)
            pending.append((c, suggested))
        elif op == "suggest":
            v = value()
            sugg.append(v)
            if isinstance(par, p.Instrumentation):
                opt.suggest(*v[0], **v[1])
            else:
                opt.suggest(v)
            continue
        elif op in ("tell", "foreign", "again"):
            if op == "tell" and pending:
                c, was_suggested = pending.pop(r.randint(len(pending)))
                asked = not was_suggested
            elif op == "again" and done and not seq:
                c, asked = done[r.randint(len(done))], False
            elif op == "foreign":
                c, asked = opt.parametrization.spawn_child(new_value=value()), False
            else:
                continue
            ls = loss()
            n = len(spy.calls)
            try:
                opt.tell(c, ls)
            except errors.TellNotAskedNotSupportedError:
                S.prove("asked-is-supported", not asked, **info)
                return
            tells += 1
            foreign += not asked
            done.append(c)
            new = spy.calls[n:]
            S.prove("given-once", len(new) == 1, n=len(new), **info)
            S.prove("right-entry", new[0][0] == ("_internal_tell_candidate" if asked else "_internal_tell_not_asked") and new[0][1] is c, **info)
            if nobj == 1:
                S.prove("loss", c.loss == ls == new[0][2], got=c.loss, want=ls, **info)
                S.prove("losses", list(c.losses) == [ls], **info)
            else:
                S.prove("losses", list(c.losses) == ls, got=c.losses, want=ls, op=op, **info)
                S.prove("scalar-loss", c.loss in (new[0][2], min(5e20, new[0][2])), got=c.loss, want=new[0][2], op=op, **info)
            S.prove("told-frozen", c._frozen, **info)
        elif op == "wrong" and tells:
            c = opt.parametrization.spawn_child(new_value=value())
            state = (opt.num_tell, opt.num_tell_not_asked, len(opt.archive), len(spy.calls), seen[1])
            try:
                opt.tell(c, [1.0, 2.0, 3.0] if nobj == 2 or r.rand() < 0.5 else [1.0, 2.0])
                refused = False
            except ValueError:
                refused = True
            S.prove("number-of-objectives-is-fixed", refused, **info)
            S.prove("refused-before-any-change", state == (opt.num_tell, opt.num_tell_not_asked, len(opt.archive), len(spy.calls), seen[1]) and c.loss is None, **info)
        S.prove("num-ask", opt.num_ask == asks == seen[0], got=opt.num_ask, want=asks, **info)
        S.prove("num-tell", opt.num_tell == tells == seen[1], got=opt.num_tell, want=tells, **info)
        S.prove("num-not-asked", opt.num_tell_not_asked == foreign, got=opt.num_tell_not_asked, want=foreign, **info)
        S.prove("pending", opt._asked == {c.uid for c, s in pending if not s}, **info)
        S.prove("objectives", opt.num_objectives == (nobj if tells else 0), **info)


# ---------------------------------------------------------------------------------------------------- C23
_BASE_REC = [n for n in NAMES if registry[n].no_parallelization is False and n in """OnePlusOne NoisyOnePlusOne DiscreteOnePlusOne PortfolioDiscreteOnePlusOne
CauchyOnePlusOne DE TwoPointsDE LhsDE ES RecES PSO RandomSearch ScrHammersleySearch QORandomSearch Portfolio""".split()]


def _cv(x):
    return float(x[0] - 0.5)


def _cw(x):
    return float(-x[1] - 1.0)


@bounded("C23", [B + "Optimizer.tell", B + "Optimizer.minimize", B + "Optimizer.recommend"], trials=120, conc_s=30,
         bound="15 optimizers, at most 40 tells, one or two violations, negative and positive losses, random penalty styles")
def api_violations(S):
    """histories where some candidates violate the constraints (argument of tell, of minimize, or registered) against a record of the feasible ones"""
    r = gen.rs(S)
    name = _BASE_REC[r.randint(len(_BASE_REC))]
    par = p.Array(shape=(2,))
    par.random_state.seed(int(r.randint(2**31)))
    par.function.deterministic = bool(r.rand() < 0.7)
    kind = r.choice(["tell", "minimize", "registered"])
    budget = int(r.randint(20, 60)) if kind != "tell" or "Hammersley" in name or r.rand() < 0.5 else None
    if kind == "registered":
        ng_errors = warnings.catch_warnings()
        with ng_errors:
            warnings.simplefilter("ignore")
            par.register_cheap_constraint(lambda x: bool(_cv(x) <= 0))
    opt = registry[name](par, budget=budget)
    shift = float(r.choice([-100.0, 0.0, 100.0]))
    bad, good, given = {}, {}, []
    for nm in ("_internal_tell_candidate", "_internal_tell_not_asked"):
        func = getattr(opt, nm)
        setattr(opt, nm, lambda c, l, func=func: (given.append((c, l)), func(c, l))[1])
    info = dict(name=name, kind=kind, budget=budget)

    known = {}

    def fun(x):
        k = np.asarray(x).tobytes()
        if k not in known:
            known[k] = float(min(1e9, np.sum((x - 1) ** 2)) * r.choice([0.1, 1, 10]) + shift)
        return known[k]

    n_tell = 0

    def check(last, ls):
        x = last.value
        S.prove("tells", opt.num_tell == n_tell, **info)
        if last.uid in good:
            S.prove("own-loss", last.loss == ls, got=last.loss, want=ls, **info)
        seen = [l for c, l in given if c is last]
        S.prove("never-better", min(seen) >= ls, given=seen, loss=ls, **info)
        if last.uid in good:
            S.prove("feasible-unpenalized", max(seen) == ls, given=seen, loss=ls, **info)
        S.prove("archive", all(v.parameter.uid not in bad for v in opt.archive.values()), **info)
        S.prove("archive-has-the-feasible", len({v.parameter.uid for v in opt.archive.values()}) == len({c.value.tobytes() for c in good.values()}), **info)
        rec = opt.provide_recommendation()
        S.prove("never-recommended", rec.uid not in bad, **info)
        if good:
            S.prove("recommends-a-feasible", rec.uid in good, **info)
            if par.function.deterministic and type(opt).recommend is base.Optimizer.recommend:
                S.prove("recommends-the-best", rec.loss == min(c.loss for c in good.values()), rec=(rec.uid, rec.loss), best=min((c.loss, u) for u, c in good.items()), last=(last.uid, ls), **info)

    if kind == "minimize":
        two = r.rand() < 0.5
        cvs = [_cv, _cw] if two else [_cv]

        def on_tell(o, c, l):
            (bad if any(f(c.value) > 0 for f in cvs) else good)[c.uid] = c

        opt.register_callback("tell", on_tell)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec = opt.minimize(fun, constraint_violation=cvs)
        S.prove("spent", opt.num_tell == opt.num_ask == budget, **info)
        S.prove("minimize-never-recommends-a-violator", rec.uid not in bad, value=rec.value, **info)
        if good:
            S.prove("minimize-recommends-a-feasible", all(f(rec.value) <= 0 for f in cvs), **info)
        return
    for _ in range(int(r.randint(3, 40)) if budget is None else budget):
        if r.rand() < 0.25:
            c = opt.parametrization.spawn_child(new_value=r.normal(size=2))
        else:
            c = opt.ask()
        ls = fun(c.value)
        viol, style = None, None
        if kind == "tell":
            v = r.normal(size=int(r.randint(1, 3))) - 0.5
            if r.rand() < 0.3:
                v = np.zeros(v.size)
            viol = [None, v, list(v), float(v[0])][r.randint(4)]
            if viol is not None and r.rand() < 0.3:
                style = [float(x) for x in r.uniform(0, 2, size=6)]
            isbad = viol is not None and np.max(viol) > 0
        else:
            isbad = _cv(c.value) > 0
        (bad if isbad else good)[c.uid] = c
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                opt.tell(c, ls, viol, style) if viol is not None else opt.tell(c, ls)
            except errors.TellNotAskedNotSupportedError:
                return
        n_tell += 1
        check(c, ls)


@bounded("C08", [B + "Optimizer.tell"], trials=6, conc_s=5, bound="3 optimizers which delegate to another one, one tell with a violation")
def delegated_violation(S):
    """known finding: an optimizer which hands its tells over to another one records the penalized loss on the candidate when a violation is told"""
    name = S.choose("name", ["NGOpt", "GeneticDE", "ChainDiagonalCMAPowell"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = registry[name](p.Array(shape=(3,)), budget=60)
        c = opt.ask()
        opt.tell(c, 1.0, constraint_violation=[2.0])
    S.prove("told-loss-recorded", c.loss == 1.0, name=name, got=c.loss)
