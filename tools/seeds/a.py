B = "nevergrad/optimization/base.py"
T = "nevergrad/parametrization/transforms.py"
U = "nevergrad/optimization/utils.py"
CO = "nevergrad/parametrization/core.py"
CT = "nevergrad/parametrization/container.py"

seed("c01-bounce-far", "C01", [(T, "            out = np.clip(2 * out - x, self.a_min, self.a_max)  # type: ignore\n", "            out = 2 * out - x  # reflected on the border\n")], """
import numpy as np
import nevergrad as ng
a = ng.p.Array(shape=(2,)).set_bounds(-1, 1, method="bouncing")
a.set_standardized_data([0.5, 30.0])
assert (np.abs(a.value) <= 1).all(), a.value
""", "a bouncing bound and data further from the bounds than the width of the interval", "the value leaves the bounds")

seed("c02-arctan-lower", "C02", [(T, """        self._check_shape(y)
        if (y > self.a_max).any() or (y < self.a_min).any():
            raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
        return np.tan(""", """        self._check_shape(y)
        if (y > self.a_max).any() or y.max() < self.a_min.min():
            raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
        return np.tan(""")], """
import numpy as np
from nevergrad.parametrization import transforms
t = transforms.ArctanBound(-1.0, 2.0)
try:
    t.backward(np.array([0.0, -1.5]))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "an array with some coordinates under the lower bound and others inside", "backward accepts an impossible value")

seed("c03-stale-sizes", "C03", [(CT, """    def __setitem__(self, name: tp.Any, value: tp.Any) -> None:
        self._sizes = None
        self._content[name]""", """    def __setitem__(self, name: tp.Any, value: tp.Any) -> None:
        if name not in self._content:
            self._sizes = None
        self._content[name]""")], """
import numpy as np
import nevergrad as ng
d = ng.p.Dict(a=ng.p.Array(shape=(2,)), b=ng.p.Array(shape=(1,)))
assert d.dimension == 3
d["a"] = ng.p.Array(shape=(1,))
d["b"] = ng.p.Array(shape=(2,))
d.set_standardized_data(np.array([1.0, 2.0, 3.0]))
np.testing.assert_allclose(d["a"].value, [1.0])
np.testing.assert_allclose(d["b"].value, [2.0, 3.0])
""", "replacing a component by one of another size after the dimension was computed", "slices of the components are the ones of the former components")

seed("c04-shared-heritage", "C04", [(CO, "        child.heritage = dict(self.heritage)\n", "        child.heritage = self.heritage\n")], """
import nevergrad as ng
a = ng.p.Array(shape=(2,))
b = a.spawn_child()
before = dict(a.heritage)
b.heritage["lineage"] = b.uid  # as differential evolution does
assert a.heritage == before, "the parent was modified"
""", "modifying the heritage of a child", "the heritage of the parent changes as well")

seed("c08-num-ask", "C08", [(B, "        self._num_ask = current_num_ask + 1\n", "        self._num_ask += 1\n")], """
import nevergrad as ng
p = ng.p.Array(shape=(1,))
p.random_state.seed(12)
def positive(x):
    return x[0] > 1
p.register_cheap_constraint(positive)
opt = ng.optimizers.registry["RandomSearch"](p, budget=100)
for k in range(10):
    opt.ask()
    assert opt.num_ask == k + 1, (opt.num_ask, k + 1)
""", "a cheap constraint which fails at least once", "the tentatives are counted as asks")

seed("c09-skip-reboot", "C09", [(B, """            if mvalue is self.current_bests[name]:  # reboot
                best""", """            if mvalue is self.current_bests[name]:  # reboot
                if loss <= mvalue.mean:  # type: ignore
                    continue  # improved, so it remains the best
                best""")], """
import numpy as np
import nevergrad as ng
opt = ng.optimizers.registry["RandomSearch"](ng.p.Array(shape=(1,)), budget=100)
def tell(x, loss):
    c = opt.parametrization.spawn_child()
    c.set_standardized_data(np.array([float(x)]))
    opt.tell(c, loss)
for _ in range(5):
    tell(0, 10.0)
for _ in range(4):
    tell(1, 9.0)
assert opt.current_bests["pessimistic"].mean == 9.0
tell(1, -200.0 + 9)
for _ in range(20):
    tell(0, 10.0)
vals = [v.get_estimation("pessimistic") for v in opt.archive.values()]
# the point which varies a lot
opt2 = ng.optimizers.registry["RandomSearch"](ng.p.Array(shape=(1,)), budget=100)
opt = opt2
for _ in range(5):
    tell(0, 10.0)
for _ in range(5):
    tell(1, 9.999999)
tell(1, 9.999999 - 1e-6 * 100)
rng = np.random.RandomState(0)
for seed in range(200):
    opt = ng.optimizers.registry["RandomSearch"](ng.p.Array(shape=(1,)), budget=100)
    for _ in range(30):
        tell(rng.randint(3), float(rng.randint(4)) ** 3)
        best = opt.current_bests["pessimistic"].get_estimation("pessimistic")
        assert best <= min(v.get_estimation("pessimistic") for v in opt.archive.values())
""", "the current pessimistic best is told again with a loss under its average which increases its variance", "the best is not computed again, another point has a lower pessimistic bound")

seed("c10-negative-variance", "C10", [(U, "            self.square = max(self.square, self.mean**2)\n", "")], """
import nevergrad as ng
from nevergrad.optimization.utils import MultiValue
for k in range(1, 400):
    a = ng.p.Scalar()
    mv = MultiValue(a, k * 0.1 + 1e6, reference=a)
    for _ in range(12):
        mv.add_evaluation(k * 0.1 + 1e6)
        assert mv.variance >= 0, mv.variance
        assert mv.optimistic_confidence_bound == mv.optimistic_confidence_bound
""", "repeated evaluations whose mean square is rounded below the square of the mean", "negative variance, confidence bounds are nan")

seed("c11-threshold", "C11", [(U, "        threshold = float(self.min_len + 1) / len(archive)\n", "        threshold = float(self.min_len) / len(archive)\n")], """
import numpy as np
import nevergrad as ng
from nevergrad.optimization import utils
rng = np.random.RandomState(3)
for n in range(5, 60):
    for m in range(1, n - 1):
        a = ng.p.Scalar()
        arch = utils.Archive()
        for k in range(n):
            arch[np.array([float(k)])] = utils.MultiValue(a, float(k), reference=a)
        out = utils.Pruning(m, n)(arch)
        assert len(out) >= m, (n, m, len(out))
""", "archives where min_len * (n-1) / n is rounded down to min_len - 1", "the pruned archive keeps less than min_len points")

seed("c22-negative", "C22", [(B, "            if not loss < 5.0e20:  # pylint: disable=unneeded-not\n", "            if not abs(loss) < 5.0e20:  # pylint: disable=unneeded-not\n")], """
import nevergrad as ng
opt = ng.optimizers.registry["OnePlusOne"](ng.p.Scalar(), budget=10)
c = opt.ask()
opt.tell(c, -1e21)
assert c.loss == -1e21, c.loss
""", "a loss under -5e20", "the best possible loss is recorded as the worst one")

seed("c23-compensated", "C23", [(B, """            iviolation = np.sum(np.maximum(constraint_violation, 0.0))
""", """            iviolation = np.sum(constraint_violation)
""")], """
import nevergrad as ng
opt = ng.optimizers.registry["RandomSearch"](ng.p.Scalar(), budget=100)
a, b = opt.ask(), opt.ask()
opt.tell(a, 10.0)
opt.tell(b, 0.0, [1.0, -3.0])
assert opt.recommend() is a, "violator recommended"
""", "several constraints, with a negative value (satisfied) larger than the positive ones", "a violating candidate becomes the recommendation")

seed("c07-tabu-set", "C07", [(CO, "                        ref.tabu_set.remove(ref.tabu_list[ref.tabu_index])\n", "                        ref.tabu_set.discard(tabu_val)\n                        ref.tabu_set.add(tabu_val)\n")], """
import nevergrad as ng
p = ng.p.TransitionChoice(range(30))
p.specify_tabu_length(2)
vals = []
def cand(v):
    c = p.spawn_child(new_value=v)
    return c
for v in [0, 1, 2, 3]:
    assert cand(v).satisfies_constraints(p)
assert not cand(3).satisfies_constraints(p)
assert cand(0).satisfies_constraints(p), "0 is not in the last 2 values"
""", "more accepted values than the length of the tabu list", "old values remain forbidden for ever")
