B = "nevergrad/optimization/base.py"
U = "nevergrad/optimization/utils.py"
TO = "nevergrad/common/tools.py"
LA = "nevergrad/parametrization/_layering.py"
DA = "nevergrad/parametrization/data.py"
HV = "nevergrad/optimization/multiobjective/hypervolume.py"
MO = "nevergrad/optimization/multiobjective/core.py"
NS = "nevergrad/optimization/multiobjective/nsga2.py"
MU = "nevergrad/optimization/mutations.py"
SE = "nevergrad/optimization/sequences.py"
DE = "nevergrad/optimization/differentialevolution.py"
ES = "nevergrad/optimization/es.py"
OL = "nevergrad/optimization/optimizerlib.py"
CB = "nevergrad/optimization/callbacks.py"
CF = "nevergrad/functions/corefuncs.py"

seed("c03-own-sigma", "C03", [(DA, "        sigma = reference.sigma.value\n        data_reduc", "        sigma = self.sigma.value\n        data_reduc")], """
import numpy as np
import nevergrad as ng
a = ng.p.Array(init=[1.0, 2.0], mutable_sigma=True)
b = a.spawn_child()
b.sigma.value = 5.0
b.set_standardized_data(np.array([1.0, -2.0]), reference=a)
np.testing.assert_allclose(b.get_standardized_data(reference=a), [1.0, -2.0])
""", "a child whose (mutable) sigma differs from the one of the reference", "what is read with the reference is not what was written")

seed("c05-bisect-left", "C05", [(LA, "            ind = bisect.bisect_right(levels, other._LAYER_LEVEL.value)\n", "            ind = bisect.bisect_left(levels, other._LAYER_LEVEL.value)\n")], """
import nevergrad as ng
s = ng.p.Scalar(init=3.0).set_integer_casting()
t = (s + 1.0) * 10.0
assert t.value == 40, t.value  # setting up: operations apply to the data in the order in which they are added
""", "two operations added to a parameter which is already cast to int", "operations are applied in the reverse order")

seed("c10-kept-candidate", "C10", [(B, "            if mvalue.parameter.loss > candidate.loss:  # type: ignore\n", "            if mvalue.mean > candidate.loss:  # type: ignore\n")], """
import numpy as np
import nevergrad as ng
opt = ng.optimizers.RandomSearch(parametrization=2, budget=100)
x = opt.parametrization.spawn_child(new_value=np.array([1.0, 2.0]))
cands = []
for loss in (1.0, 7.0, 2.0):
    c = x.spawn_child()
    cands.append(c)
    opt.tell(c, loss)
mv = opt.archive[x.get_standardized_data(reference=opt.parametrization)]
assert mv.parameter.loss == 1.0, mv.parameter.loss
""", "a point evaluated at least three times, the last loss between the minimum and the average", "the candidate kept is not the one with the smallest loss")

seed("c13-alias", "C13", [(MO, "np.asarray([-float(\"inf\")]) if upper_bounds is None else np.array(upper_bounds)", "np.asarray([-float(\"inf\")] if upper_bounds is None else upper_bounds)")], """
import numpy as np
import nevergrad as ng
bounds = np.array([10.0, 10.0])
from nevergrad.optimization.multiobjective import HypervolumePareto
front = HypervolumePareto(upper_bounds=bounds)
bounds /= 10  # the array of the user is used for something else
c = ng.p.Array(shape=(2,))
c._losses = np.array([5.0, 5.0])
loss = front.add(c)
assert loss == -25, loss
""", "the array of the upper bounds given to a front is modified in place by the user afterwards", "the upper bounds follow the array")

seed("c14-small-areas", "C14", [(HV, "            if node.area[dimension] <= node.prev[dimension].area[dimension]:\n", "            if node.area[dimension] <= node.prev[dimension].area[dimension] + 1e-8:\n")], """
import itertools
import numpy as np
from nevergrad.optimization.multiobjective.hypervolume import HypervolumeIndicator
rng = np.random.RandomState(0)
for _ in range(20):
    pts = rng.rand(6, 4)
    a = HypervolumeIndicator(np.ones(4)).compute(pts)
    b = HypervolumeIndicator(np.ones(4) * 1e-3).compute(pts * 1e-3)
    assert abs(b * 1e12 - a) < 1e-6, (a, b * 1e12)
""", "four objectives or more, of a scale around 1e-3", "the volume ignores the contribution of points")

seed("c14-bounds-reset", "C14", [(HV, "        self.reference_bounds = np.full(self.dimension, -np.inf)\n        self._multilist = VectorLinkedList", "        self._multilist = VectorLinkedList")], """
import numpy as np
from nevergrad.optimization.multiobjective.hypervolume import HypervolumeIndicator
rng = np.random.RandomState(0)
h = HypervolumeIndicator(np.ones(4))
for _ in range(50):
    pts = rng.rand(7, 4)
    a = h.compute(pts)
    b = HypervolumeIndicator(np.ones(4)).compute(pts)
    assert abs(a - b) < 1e-9, (a, b)
""", "an indicator used several times with three objectives or more", "the second volume depends on the first points")

seed("c15-stale-distance", "C15", [(NS, "            f._meta[\"crowding_distance\"] = 0.0\n", "            f._meta.setdefault(\"crowding_distance\", 0.0)\n")], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization.multiobjective import nsga2
pop = []
for k in range(6):
    c = ng.p.Scalar(init=float(k)).spawn_child()
    c._losses = np.array([float(k), float((5 - k) ** 2)])
    pop.append(c)
first = nsga2.rank(pop, n_selected=4)
second = nsga2.rank(pop, n_selected=4)
assert first == second
""", "an individual which is ranked in several generations", "crowding distances accumulate over the generations")

seed("c15-partial", "C15", [(NS, "            n_dist_calc = n_selected - len(selected_pop) if n_selected is not None else len(p_frontier)\n", "            n_dist_calc = n_selected - next_rank if n_selected is not None else len(p_frontier)\n")], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization.multiobjective import nsga2
pop = []
for losses in [(0, 1), (1, 0), (1, 2), (2, 1), (1.5, 1.5), (1.2, 1.8), (1.8, 1.2)]:
    c = ng.p.Scalar().spawn_child()
    c._losses = np.array(losses, dtype=float)
    pop.append(c)
sel = nsga2.rank(pop, n_selected=4)
assert len(sel) == 4, len(sel)
""", "a first front of several individuals which are all selected, then a front to truncate", "more individuals than requested are selected")

seed("c17-arity", "C17", [(MU, "        if arity > 499:\n", "        if arity > 49:\n")], """
import numpy as np
from nevergrad.optimization import mutations
from nevergrad.parametrization import discretization
m = mutations.Mutator(np.random.RandomState(12))
for k in range(3000):
    v = 0.01
    w = m.significantly_mutate(v, 60)
    assert discretization.threshold_discretization([v], 60) != discretization.threshold_discretization([w], 60)
""", "variables with between 50 and 499 values", "the mutation may leave the variable at the same value")

seed("c24-zero-loss", "C24", [(DE, "                uid, worst = max(self.population.items(), key=lambda p: base._loss(p[1]))\n                if loss < base._loss(worst):\n", "                uid, worst = max(self.population.items(), key=lambda p: p[1].loss or float(\"inf\"))\n                if loss < (worst.loss or float(\"inf\")):\n")], """
import numpy as np
import nevergrad as ng
opt = ng.families.DifferentialEvolution(popsize=4)(ng.p.Array(shape=(2,)), budget=100)
for k in range(4):
    c = opt.ask()
    opt.tell(c, float(k))
best = min(x.loss for x in opt.population.values())
opt.tell(opt.parametrization.spawn_child(new_value=np.array([3.0, 4.0])), 50.0)
losses = sorted(x.loss for x in opt.population.values())
assert losses == [0, 1, 2, 3], losses
""", "an individual with a loss of exactly 0 and a point told without being asked", "the best individual is replaced by the new one, whatever its loss")

seed("c24-pso-parent", "C24", [(OL, "        if loss <= candidate.heritage.get(\"best_parent\", candidate).loss:\n", "        if loss <= base._loss(self.population[uid]):\n")], """
import nevergrad as ng
opt = ng.optimizers.PSO(ng.p.Array(shape=(2,)), budget=500)
best = {}
for k in range(300):
    c = opt.ask()
    u = c.heritage["lineage"]
    loss = float((k * 7919) % 101)
    opt.tell(c, loss)
    best[u] = min(best.get(u, 1e9), loss)
    assert opt.population[u].heritage["best_parent"].loss == best[u]
""", "a particle whose last position is worse than a previous one", "the memory of the best position of the particle is overwritten")

seed("c25-catch-up", "C25", [(CB, "            self._next_tell = optimizer.num_tell + self._log_interval_tells\n            if optimizer.num_objectives == 1:\n                x = optimizer.provide_recommendation()\n", "            self._next_tell += self._log_interval_tells\n            if optimizer.num_objectives == 1:\n                x = optimizer.provide_recommendation()\n")], """
import logging
import nevergrad as ng
class H(logging.Handler):
    n = 0
    def emit(self, r):
        H.n += 1
logger = logging.getLogger("demo")
logger.setLevel(logging.INFO)
logger.propagate = False
logger.addHandler(H())
opt = ng.optimizers.OnePlusOne(2, budget=1000)
for _ in range(50):
    opt.tell(opt.ask(), 1.0)
opt.register_callback("tell", ng.callbacks.OptimizationLogger(logger=logger, log_interval_tells=10, log_interval_seconds=1e6))
for _ in range(20):
    opt.tell(opt.ask(), 1.0)
assert H.n == 2, H.n
""", "a logger registered after several tells", "it logs at every tell until it catches up")

seed("c20-rastrigin-1d", "C20", [(CF, "    cosi = float(np.sum(np.cos(2 * np.pi * x)))\n    return float(10 * (len(x) - cosi) + sphere(x))\n\n\n@registry.register\ndef bucherastrigin", "    cosi = float(np.sum(np.cos(2 * np.pi * x[:200])))\n    return float(10 * (len(x) - cosi) + sphere(x))\n\n\n@registry.register\ndef bucherastrigin")], """
import numpy as np
from nevergrad.functions import corefuncs
for d in (1, 5, 300):
    assert abs(corefuncs.registry["rastrigin"](np.zeros(d))) < 1e-9, d
""", "dimension above 200", "the minimum is not 0 anymore")
