B = "nevergrad/optimization/base.py"
U = "nevergrad/optimization/utils.py"
SE = "nevergrad/optimization/sequences.py"
EX = "nevergrad/benchmark/execution.py"
BC = "nevergrad/benchmark/core.py"

seed("c08-violation-kept-asked", "C08", [(B, "            self._asked.remove(candidate.uid)\n", "            if not no_update:\n                self._asked.remove(candidate.uid)\n")], """
import nevergrad as ng
opt = ng.optimizers.OnePlusOne(2, budget=20)
c = opt.ask()
opt.tell(c, 1.0, constraint_violation=[2.0])
opt.tell(c, 1.0)
assert opt.num_tell == 2 and opt.num_tell_not_asked == 1, opt.num_tell_not_asked
""", "a candidate told with a constraint violation, then told again", "the second tell is processed as the answer to an ask")

seed("c16-lhs-small-integers", "C16", [(SE, "        self.permutations = np.zeros((dimension, budget), dtype=int)\n", "        self.permutations = np.zeros((dimension, budget), dtype=np.int16)\n")], """
import numpy as np
from nevergrad.optimization import sequences
n = 40000
s = sequences.LHSSampler(1, n, random_state=np.random.RandomState(12))
pts = np.array([s() for _ in range(n)])[:, 0]
assert pts.min() >= 0 and pts.max() <= 1, (pts.min(), pts.max())
assert sorted((pts * n).astype(int)) == list(range(n))
""", "a Latin hypercube with more points than the integers of 16 bits", "points outside of the unit cube, strata without points")

seed("c18-instant-again", "C18", [(EX, "        if self._delay is None:\n            self._output", "        if not self._delay:\n            self._output")], """
from nevergrad.benchmark import execution
from nevergrad.functions.base import ExperimentFunction
import nevergrad as ng

class F(ExperimentFunction):
    n = 0
    def __init__(self):
        super().__init__(self.call, ng.p.Instrumentation(ng.p.Scalar()).set_name(""))
    def call(self, x):
        self.n += 1
        return x
    def compute_pseudotime(self, input_parameter, loss):
        return 0.0

f = F()
e = execution.MockedTimedExecutor()
a = e.submit(f, 1.0)
assert a.done() and a.result() == 1.0
assert f.n == 1, f.n
""", "a job without any delay", "the function is executed several times")

seed("c19-seed-zero", "C19", [(BC, "            if self.seed is None\n", "            if not self.seed\n")], """
from nevergrad.benchmark import core
got = []

def _ngvc_demo_plan(seed=None):
    got.append(seed)
    return iter(())

core.registry.data["_ngvc_demo_plan"] = _ngvc_demo_plan
list(core.BenchmarkChunk("_ngvc_demo_plan", repetitions=2, seed=0))
assert [x for x in got if x is not None] == [0, 1], got
""", "a benchmark with seed 0", "the repetitions of the experiments are not seeded")
