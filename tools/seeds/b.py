B = "nevergrad/optimization/base.py"
T = "nevergrad/parametrization/transforms.py"
U = "nevergrad/optimization/utils.py"
CO = "nevergrad/parametrization/core.py"
CT = "nevergrad/parametrization/container.py"
DL = "nevergrad/parametrization/_datalayers.py"
DI = "nevergrad/parametrization/discretization.py"
MO = "nevergrad/optimization/multiobjective/core.py"
MU = "nevergrad/optimization/mutations.py"
SE = "nevergrad/optimization/sequences.py"

seed("c01-arctan-rounded-pi", "C01", [(T, "        self._a = (self.a_max - self.a_min) / np.pi\n", "        self._a = 0.318309887 * (self.a_max - self.a_min)\n")], """
import numpy as np
import nevergrad as ng
a = ng.p.Array(shape=(2,)).set_bounds(-1, 1, method="arctan")
for x in (1e9, 1e12, -1e15):
    a.set_standardized_data([0.5, x])
    assert (np.abs(a.value) <= 1).all(), a.value
""", "an arctan bound and huge data (above 1e9)", "the value leaves the bounds by a rounding constant")

seed("c02-cumulative-eps", "C02", [(T, "        y = np.clip((y - self._b) / self._a, self._eps, 1 - self._eps)\n", "        y = np.clip((y - self._b) / self._a, self._eps, 1 - 1e3 * self._eps)\n")], """
import numpy as np
from nevergrad.parametrization import transforms
t = transforms.CumulativeDensity(lower=-2.0, upper=3.0, scale=2.0)
y = t.forward(np.array([0.3, 2.0, 10.4]))
np.testing.assert_allclose(t.forward(t.backward(y)), y, rtol=0, atol=5e-8)
""", "a value of a gaussian-bounded parameter very close to its upper bound", "going backward then forward does not give the value")

seed("c03-frozen-reference", "C03", [(CT, "self._content[name].set_standardized_data(data[start:end], reference=reference[name])", "self._content[name].set_standardized_data(\n                data[start:end], reference=reference[name] if reference._frozen else None\n            )")], """
import numpy as np
import nevergrad as ng
d = ng.p.Dict(a=ng.p.Array(init=[1.0, 2.0]), b=ng.p.Scalar(init=3.0))
e = d.spawn_child()
e.value = {"a": np.array([10.0, 20.0]), "b": 30.0}
e.set_standardized_data(np.array([0.5, 0.5, 0.5]), reference=d)
np.testing.assert_allclose(e.get_standardized_data(reference=d), [0.5, 0.5, 0.5])
""", "a container written with another, not frozen, parameter as reference", "the data is written around the wrong point")

seed("c04-shared-parents", "C04", [(CO, "        child.parents_uids = list(self.parents_uids)\n", "        child.parents_uids = self.parents_uids\n")], """
import nevergrad as ng
a = ng.p.Array(shape=(2,))
b = a.spawn_child()
c = b.copy()
before = list(b.parents_uids)
c.parents_uids.append(a.uid)
assert b.parents_uids == before
""", "a copy of a candidate whose list of parents is extended (as recombinations do)", "the parents of the original change as well")

seed("c05-log-floor", "C05", [(DL, "        return np.log(value) / np.log(self._base)\n", "        return np.log(np.maximum(value, 1e-12)) / np.log(self._base)\n")], """
import numpy as np
import nevergrad as ng
a = ng.p.Log(init=1e-10, lower=1e-20, upper=1.0)
a.value = 1e-16
np.testing.assert_allclose(a.value, 1e-16, rtol=1e-6)
""", "a log-distributed parameter set to a value under 1e-12", "another value is read")

seed("c06-minus-inf-row", "C06", [(DI, "        maxv[np.isinf(maxv)] = 0  # avoid indeterminations\n", "        maxv[hasposinf] = 0  # avoid indeterminations\n")], """
import numpy as np
from nevergrad.parametrization import discretization
w = np.array([[0.0, 1.0], [-np.inf, -np.inf]])
p = discretization.Encoder(w, np.random.RandomState(0)).probabilities()
np.testing.assert_allclose(p.sum(axis=1), 1)
np.testing.assert_allclose(p[1], 0.5)
""", "a line of weights with only minus infinities (or nan)", "probabilities are nan and the draws are not uniform")

seed("c06-encode-strict", "C06", [(DI, "        is_ignored = np.logical_and(np.logical_not(is_inf), hasposinf)\n".replace("        is", "            is"), "            is_ignored = np.logical_not(is_inf)\n")], """
import numpy as np
from nevergrad.parametrization import discretization
w = np.array([[0.0, 3.0], [np.inf, 1.0]])
p = discretization.Encoder(w, np.random.RandomState(0)).probabilities()
assert p[0, 1] > 0.9, p
np.testing.assert_allclose(p[1], [1, 0])
""", "several lines of weights, only some of them with an infinite weight", "the lines without infinite weights become uniform")

seed("c07-shared-checkers", "C07", [(CO, "        child._constraint_checkers = list(self._constraint_checkers)\n", "        child._constraint_checkers = self._constraint_checkers\n")], """
import warnings
import nevergrad as ng
a = ng.p.Array(shape=(2,))
b = a.copy()
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    b.register_cheap_constraint(lambda x: False)
assert a.satisfies_constraints(a), "the constraint of the copy applies to the original"
""", "registering a constraint on a copy or child", "the original is constrained as well")

seed("c08-suggestion-order", "C08", [(B, "                    candidate = self._suggestions.pop()\n", "                    candidate = self._suggestions.pop(0)\n")], """
import numpy as np
import nevergrad as ng
opt = ng.optimizers.OnePlusOne(parametrization=2, budget=20)
for k in range(3):
    opt.suggest(np.array([k, k]))
got = [opt.ask().value[0] for _ in range(3)]
assert got == [2, 1, 0], got
""", "several pending suggestions", "suggestions are asked first-in first-out")

seed("c09-reboot-minimum", "C09", [(B, "            if mvalue is self.current_bests[name]:  # reboot\n", '            if mvalue is not None and mvalue is self.current_bests["minimum"]:  # reboot\n')], """
import numpy as np
import nevergrad as ng
opt = ng.optimizers.RandomSearch(parametrization=1, budget=100)
pts = [opt.parametrization.spawn_child(new_value=np.array([float(k)])) for k in range(3)]
def tell(k, v):
    opt.tell(opt.parametrization.spawn_child(new_value=np.array([float(k)])), v)
tell(0, -10.0); tell(0, 1.0); tell(0, 1.0)   # best minimum, average -2.67
tell(1, -3.0); tell(2, -2.9)                 # best average: 1
tell(1, 5.0)                                 # 1 is not any more
best = opt.current_bests["average"].mean
assert best == min(v.mean for v in opt.archive.values()), best
""", "the best point for the average is not the best for the minimum and is evaluated again with a worse value", "the recorded best average is not the best of the archive")

seed("c10-square-count", "C10", [(U, "        self.square = (self.count * self.square + y * y) / float(self.count + 1)\n        self.count += 1\n", "        self.count += 1\n        self.square += (y * y - self.square) / float(max(self.count, 3) if y == self._minimum else self.count)\n")], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization import utils
a = ng.p.Scalar()
m = utils.MultiValue(a, 3.0, reference=a)
m.add_evaluation(1.0)
m.add_evaluation(2.0)
np.testing.assert_allclose(m.square, np.mean([9, 1, 4]))
""", "a second evaluation which is the new minimum", "the mean square is not the one of the told values")

seed("c11-any-all", "C11", [(U, "            if any(v.get_estimation(n) < quantiles[n] for n in names)\n", '            if any(v.get_estimation(n) < quantiles[n] for n in names[: 3 if v.count > 1 else 2])\n')], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization import utils
ref = ng.p.Scalar()
ar = utils.Archive()
rng = np.random.RandomState(0)
# points evaluated many times with various variances, one evaluated once with the best average
for k in range(40):
    m = utils.MultiValue(ref.spawn_child(new_value=float(k)), 100.0, reference=ref)
    for v in (0.0, 0.0, 0.0, 300.0 + k):
        m.add_evaluation(v)
    m.variance = 1e9 if k % 2 else 0.0
    ar[np.array([float(k)])] = m
best = utils.MultiValue(ref.spawn_child(new_value=77.0), 60.0, reference=ref)
best.variance = 1e7
ar[np.array([77.0])] = best
new = utils.Pruning(min_len=4, max_len=10)(ar)
assert np.array([77.0]) in new, "the best average was lost"
""", "an archive whose points have different variances; the best average was evaluated once", "the point with the best average is removed")

seed("c12-popleft-first", "C12", [(B, "                    x, job = self._finished_jobs[0]\n", "                    x, job = self._finished_jobs.popleft()\n"), (B, "                    self._finished_jobs.popleft()  # remove it after the tell to make sure it was indeed \"told\" (in case of interruption)\n", "")], """
import numpy as np
import nevergrad as ng
opt = ng.optimizers.OnePlusOne(parametrization=2, budget=10)
calls = []
def func(x):
    calls.append(1)
    if len(calls) == 5:
        raise KeyboardInterrupt
    return float(np.sum(x**2))
try:
    opt.minimize(func)
except KeyboardInterrupt:
    pass
opt.minimize(func)
assert opt.num_tell == 10, opt.num_tell
""", "an interruption (exception) during an evaluation, and the optimization resumed afterwards", "the interrupted evaluation is lost")

seed("c13-strict-filter", "C13", [(MO, "                if (other.losses <= param.losses).all() and (other.losses < param.losses).any():\n", "                if (other.losses < param.losses).any() and not (other.losses > param.losses + 1e-9).any():\n")], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization import multiobjective as mobj
h = mobj.HypervolumePareto(upper_bounds=[10.0, 10.0])
base = ng.p.Scalar()
out = []
for l in ([1.0, 2.0], [1.0 + 5e-10, 1.0], [3e-10 + 1.0, 1.5]):
    c = base.spawn_child()
    c._losses = np.array(l)
    h.add(c)
front = h.pareto_front()
assert sorted(list(c.losses) for c in front) == [[1.0, 2.0], [1.0 + 3e-10, 1.5], [1.0 + 5e-10, 1.0]], [c.losses for c in front]
""", "two points whose losses for one objective differ by less than 1e-9", "a non-dominated point leaves the front")

seed("c13-best-volume-init", "C13", [(MO, "            if self._best_volume < 0:\n                self._pf.add_to_pareto(parameter)\n            return -loss\n", "            if self._best_volume < 0 or (losses <= self._upper_bounds).sum() == losses.size - 1:\n                self._pf.add_to_pareto(parameter)\n            return -loss\n")], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization import multiobjective as mobj
h = mobj.HypervolumePareto(upper_bounds=[10.0, 10.0])
base = ng.p.Scalar()
for l in ([1.0, 2.0], [3.0, 1.0], [12.0, 0.5], [12.0, 5.0]):
    c = base.spawn_child()
    c._losses = np.array(l)
    h.add(c)
front = h.pareto_front()
assert all((c.losses <= 10).all() for c in front), [c.losses for c in front]
""", "a point beyond the reference on one objective only after the reference was beaten", "the front contains a point beyond the reference")

seed("c16-vdc-last-digit", "C16", [(SE, "            remainder = permut[remainder]\n", "            remainder = permut[remainder] if n else remainder\n")], """
import numpy as np
from nevergrad.optimization import sequences
h = sequences.HaltonSampler(3, 20, scrambling=True, random_state=np.random.RandomState(12))
perms = list(h.permgen.get_permutations_generator())
for i in range(20):
    s = h()
    for x, perm in zip(s, perms):
        b, n, v, d = len(perm), i + 1, 0.0, 1
        while n:
            d *= b
            n, r = divmod(n, b)
            v += perm[r] / d
        assert abs(v - x) < 1e-12, (i, v, x)
""", "a scrambled sequence", "the leading digit is not permuted")

seed("c17-capped-retries", "C17", [(MU, "        boolean_vector = np.ones(dimension, dtype=bool)\n        while all(boolean_vector) and dimension != 1:\n            boolean_vector = self.random_state.rand(dimension) > float(intensity) / dimension\n", "        boolean_vector = np.ones(dimension, dtype=bool)\n        for _ in range(32):  # should be more than enough\n            if not all(boolean_vector) or dimension == 1:\n                break\n            boolean_vector = self.random_state.rand(dimension) > float(intensity) / dimension\n")], """
import numpy as np
from nevergrad.optimization import mutations
class R(np.random.RandomState):
    count = 0
    def rand(self, *a):
        R.count += 1
        return np.ones(*a) * 0.99 if R.count <= 40 else super().rand(*a)
m = mutations.Mutator(R(3))
parent = [0.5] * 20
out = m.portfolio_discrete_mutation(parent, intensity=1)
assert list(out) != parent, "nothing was mutated"
""", "a low mutation rate and an unlucky random stream (32 draws without any selected coordinate)", "no coordinate is mutated although at least one is promised")

seed("c21-discard-told", "C21", [(U, "        self.told.append(uid)\n        if uid in self.asked:\n            self.asked.discard(uid)\n", "        if uid in self.asked:\n            self.asked.discard(uid)\n            self.told.append(uid)\n        elif uid not in self.told:\n            self.told.appendleft(uid)\n")], """
from nevergrad.optimization.utils import UidQueue
q = UidQueue()
for u in "abc":
    q.tell(u)
assert [q.ask() for _ in range(3)] == ["a", "b", "c"]
""", "uids told without having been asked before", "they are handed out in the reverse order")

seed("c22-nan-ge", "C22", [(B, "            if not loss < 5.0e20:  # pylint: disable=unneeded-not\n", "            if loss >= 5.0e20 or loss != loss and self.num_tell > 0:\n")], """
import numpy as np
import warnings
warnings.simplefilter("ignore")
import nevergrad as ng
opt = ng.optimizers.OnePlusOne(parametrization=2, budget=20)
c = opt.ask()
opt.tell(c, float("nan"))
assert c.loss == 5e20, c.loss
""", "the very first told loss is nan", "nan is recorded on the candidate and in the archive")

seed("c23-violation-positive", "C23", [(B, "            if iviolation > 0.0:\n                no_update = True\n", ""), (B, "            loss += violation\n", "            if violation > 0.0:\n                no_update = True\n            loss += violation\n")], """
import numpy as np
import nevergrad as ng
opt = ng.optimizers.OnePlusOne(parametrization=2, budget=100)
good, bad = opt.ask(), opt.ask()
opt.tell(good, -1.0)
opt.tell(bad, -5.0, [1.0])
assert opt.provide_recommendation() is good or np.allclose(opt.provide_recommendation().value, good.value)
""", "a violating candidate with a negative loss in the first half of the budget (the penalty is then zero)", "the violating candidate is recommended")
