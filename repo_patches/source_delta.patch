From d4efb03bebd0bace0876962bcc7c1049d0c89dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 01/32] fix: NSGA-II ranking must compare candidates by Pareto
 dominance

Counting won objectives is not transitive: with 3 objectives or more it has
cycles, for which the ranking dropped candidates altogether.
---
 nevergrad/optimization/multiobjective/nsga2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/nsga2.py b/nevergrad/optimization/multiobjective/nsga2.py
index fadab22..0f113c3 100644
--- a/nevergrad/optimization/multiobjective/nsga2.py
+++ b/nevergrad/optimization/multiobjective/nsga2.py
@@ -125,9 +125,9 @@ class FastNonDominatedRanking:
         """
         one_wins = np.sum(candidate1.losses < candidate2.losses)
         two_wins = np.sum(candidate2.losses < candidate1.losses)
-        if one_wins > two_wins:
+        if one_wins and not two_wins:
             return -1
-        if two_wins > one_wins:
+        if two_wins and not one_wins:
             return 1
         return 0
 
-- 
2.43.0


From bcce51aa0b88f26776028375e44fb9b13e9acb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 02/32] fix: tell must not penalize a candidate for being in
 the tabu list

The candidate was put in the tabu list when it was asked, so with a tabu list
and a budget no evaluation ever reached the archive and the current bests.
---
 nevergrad/optimization/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index fb411bf..3c21d97 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -394,7 +394,10 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(self.parametrization) and self.budget is not None:
+        if (
+            not candidate.satisfies_constraints(self.parametrization, no_tabu=True)
+            and self.budget is not None
+        ):
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
-- 
2.43.0


From b5cdd9798800ec834025197b01a1224da79c3bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 03/32] fix: tell must sanitize a loss provided as a sequence
 of 1 element

[3] raised an AttributeError, and [nan] or [inf] were not clipped as nan and inf are.
---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 3c21d97..9410052 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -334,6 +334,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         will use this suggestion.
         """
         # Check loss type
+        if isinstance(loss, (tuple, list, np.ndarray)) and np.size(loss) == 1:
+            loss = float(np.ravel(loss)[0])  # a single loss is handled as a float
         if isinstance(loss, (Real, float)) or (isinstance(loss, np.ndarray) and not loss.shape):
             # using "float" along "Real" because mypy does not understand "Real" for now Issue #3186
             loss = float(loss)
@@ -346,7 +348,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
+            loss = np.asarray(loss, dtype=float).ravel()
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From 059db79c7a0479656cdaae14949c45d244e9f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 04/32] fix: minimize must terminate when there were already
 more asks than the budget

A negative remaining budget kept the loop running for ever.
---
 nevergrad/optimization/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 9410052..99cadf1 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -685,7 +685,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         tmp_finished: tp.Deque[tp.Tuple[p.Parameter, tp.JobLike[tp.Loss]]] = deque()
         # go
         sleeper = ngtools.Sleeper()  # manages waiting time depending on execution time of the jobs
-        remaining_budget = self.budget - self.num_ask
+        remaining_budget = max(0, self.budget - self.num_ask)  # there can be more asks than the budget
         first_iteration = True
         #
         t0 = time.time()
@@ -735,7 +735,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 if new_sugg:
                     sleeper.start_timer()
             if remaining_budget > 0:  # early stopping sets it to 0
-                remaining_budget = self.budget - self.num_ask
+                remaining_budget = max(0, self.budget - self.num_ask)
             # split (repopulate finished and runnings in only one loop to avoid
             # weird effects if job finishes in between two list comprehensions)
             tmp_runnings, tmp_finished = [], deque()
-- 
2.43.0


From 1dd127fd1b595d37d097def622aad2c731ab7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 05/32] fix: printer and logger callbacks must follow their
 interval in number of tells

The inverted comparison printed at every tell whatever the interval.
---
 nevergrad/optimization/callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index e20a4d7..43ec8b8 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -37,11 +37,11 @@ class OptimizationPrinter:
         assert print_interval_seconds > 0
         self._print_interval_tells = int(print_interval_tells)
         self._print_interval_seconds = print_interval_seconds
-        self._next_tell = self._print_interval_tells
+        self._next_tell = 0  # starts with the first call
         self._next_time = time.time() + print_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
             x = optimizer.provide_recommendation()
@@ -78,11 +78,11 @@ class OptimizationLogger:
         self._log_level = log_level
         self._log_interval_tells = int(log_interval_tells)
         self._log_interval_seconds = log_interval_seconds
-        self._next_tell = self._log_interval_tells
+        self._next_tell = 0  # starts with the first call
         self._next_time = time.time() + log_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-- 
2.43.0


From 2fe045c6d53cf38336cb1e5404d33e8df9ca9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 06/32] fix: random integer casting must not modify the data of
 the parameter

The noise was added in place to the underlying array, so that reading the value
of a parameter (even a frozen one) changed its standardized data.
---
 nevergrad/parametrization/_layering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 9922201..feb9275 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -272,7 +272,7 @@ class Int(Layered, Filterable):
         bounds = self._layers[0].bounds  # type: ignore
         out = super()._layered_get_value()
         if not self.deterministic:
-            out += self.random_state.rand(*out.shape) - 0.5
+            out = out + self.random_state.rand(*out.shape) - 0.5  # not in place, this is the internal data
         out = np.round(out).astype(np.int64)
         # make sure rounding does not reach beyond the bounds
         eps = 1e-12
-- 
2.43.0


From 94217e5ee713e1515ded67f2a03f1cc0b68b7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 07/32] fix: bounds of a parameter must be swapped by
 decreasing operations

-Scalar(lower=0, upper=10) had bounds (0, -10), which integer casting applies
one after the other: it always provided -10.
---
 nevergrad/parametrization/data.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 901d9ff..73e24c3 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -131,7 +131,14 @@ class Data(core.Parameter):
         forwardable = _datalayers.ForwardableOperation.filter_from(self)
         forwardable = [x for x in forwardable if x._layer_index > bound_layers[-1]._layer_index]
         for f in forwardable:
-            bounds = tuple(None if b is None else f.forward(b) for b in bounds)  # type: ignore
+            lower, upper = (None if b is None else f.forward(b) for b in bounds)
+            if lower is not None and upper is not None:  # the operation can be decreasing
+                lower, upper = np.minimum(lower, upper), np.maximum(lower, upper)
+            elif lower is not None and np.all(f.forward(bounds[0] + 1.0) < lower):
+                lower, upper = None, lower
+            elif upper is not None and np.all(f.forward(bounds[1] - 1.0) > upper):
+                lower, upper = upper, None
+            bounds = (lower, upper)
         return bounds
 
     @property
-- 
2.43.0


From c2f618db5344ceb07144eef44c731fd5e1a49d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 08/32] fix: Affine must reject a coefficient array containing
 a zero

The corresponding coordinates were lost, and the inverse divided by zero.
---
 nevergrad/parametrization/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 388d8c0..7aaede4 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -76,7 +76,7 @@ class Affine(Transform):
         super().__init__()
         self.a = bound_to_array(a)
         self.b = bound_to_array(b)
-        if not np.any(self.a):
+        if not np.all(self.a):
             raise ValueError('"a" parameter should be non-zero to prevent information loss.')
         self.name = f"Af({a},{b})"
 
-- 
2.43.0


From 99efbcc5e356648a4d6e9bcdaeeab4b1cdf747eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 09/32] fix: points over the upper bounds must not have a
 (negative) hypervolume

Such points can be stored in the Pareto front. Their contribution to the
hypervolume was negative or mixed with the others, so that non-dominated points
within the bounds were rejected from the front.
---
 nevergrad/optimization/multiobjective/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index b9deb06..158dce1 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -129,7 +129,9 @@ class HypervolumePareto:
         if self._hypervolume is None:
             self._hypervolume = HypervolumeIndicator(self._upper_bounds)
             self._pf._hypervolume = self._hypervolume
-        new_volume = self._hypervolume.compute([pa.losses for pa in self._pf.get_raw()] + [losses])
+        # points over the upper bounds can be in the front, but they do not have any volume
+        stored = [np.minimum(pa.losses, self._upper_bounds) for pa in self._pf.get_raw()]
+        new_volume = self._hypervolume.compute(stored + [losses])
         if new_volume > self._best_volume:
             # This point is good! Let us give him a great mono-fitness value.
             self._best_volume = new_volume
@@ -247,7 +249,8 @@ class ParetoFront:
         scores: tp.List[float] = []
         for tentative in tentatives:
             if subset == "hypervolume":
-                scores += [-hypervolume.compute([pa.losses for pa in tentative])]  # type: ignore
+                bounds = hypervolume.reference_point  # type: ignore
+                scores += [-hypervolume.compute([np.minimum(pa.losses, bounds) for pa in tentative])]  # type: ignore
             else:
                 score: float = 0.0
                 for v in self._pareto:
-- 
2.43.0


From d71713d252a44eafe2589cc3578d85e20538f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:10 +0000
Subject: [PATCH 10/32] fix: hypervolume must be exact with ties between
 coordinates

In 4 dimensions or more, 2 points with equal projections could both be skipped,
each as dominated by the other one, so that the hypervolume was underestimated.
---
 nevergrad/optimization/multiobjective/hypervolume.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/hypervolume.py b/nevergrad/optimization/multiobjective/hypervolume.py
index d3581c8..b057fb4 100644
--- a/nevergrad/optimization/multiobjective/hypervolume.py
+++ b/nevergrad/optimization/multiobjective/hypervolume.py
@@ -84,9 +84,11 @@ class VectorLinkedList:
         by i-th coordinate attribute in i-th row."""
         linked_list = cls(dimension)
         nodes = [VectorNode(dimension, coordinates=point) for point in points]
-        for i in range(dimension):
-            sorted_node = cls.sort_by_index(nodes, i)
-            linked_list.extend(sorted_node, i)
+        # ties are ordered consistently in all lists (by the following coordinates), otherwise
+        # 2 nodes with equal projections could both be skipped as dominated by the other one
+        for i in reversed(range(dimension)):
+            nodes = cls.sort_by_index(nodes, i)
+            linked_list.extend(nodes, i)
         return linked_list
 
     @staticmethod
@@ -197,6 +199,8 @@ class HypervolumeIndicator:
 
     def compute(self, points: tp.Union[tp.List[np.ndarray], np.ndarray]) -> float:
         points = points - self.reference_point  # type: ignore
+        # points on the border have no volume, but could be used for skipping other points
+        points = [point for point in points if np.max(point) != 0]
         # TODO: not sure why it would work with lists tough, investigate the ignored typing
         self.reference_bounds = np.full(self.dimension, -np.inf)
         self._multilist = VectorLinkedList.create_sorted(self.dimension, points)
-- 
2.43.0


From faeade8ed1f24da077e7c0f589fab23f91b32f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 11/32] fix: automatic rescaling of one-shot optimizers must be
 finite in dimension 1

The scale was divided by log(1) = 0, all asked points were infinite or nan.
---
 nevergrad/optimization/oneshot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/oneshot.py b/nevergrad/optimization/oneshot.py
index f42c5e6..0e23444 100644
--- a/nevergrad/optimization/oneshot.py
+++ b/nevergrad/optimization/oneshot.py
@@ -164,7 +164,7 @@ class _RandomSearch(OneShotOptimizer):
         if isinstance(scale, str) and scale == "auto":
             # Some variants use a rescaling depending on the budget and the dimension (1st version).
             assert self.budget is not None
-            scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if isinstance(scale, str) and scale == "autotune":
             assert self.budget is not None
             scale = np.sqrt(np.log(self.budget) / self.dimension)
@@ -327,7 +327,7 @@ class _SamplingSearch(OneShotOptimizer):
             sample = self._rescaler.apply(sample)
         if self.autorescale is True or self.autorescale == "auto":
             assert self.budget is not None
-            self.scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            self.scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if self.autorescale == "autotune":
             assert self.budget is not None
             self.scale = np.sqrt(np.log(self.budget) / self.dimension)
-- 
2.43.0


From 1f8cfe650d2dfe91659c264afdc6a799e51ffd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 12/32] fix: rescaling a sample of only one point must not give
 nan

Optimizers with rescaling asked nan points with a budget of 1.
---
 nevergrad/optimization/sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/sequences.py b/nevergrad/optimization/sequences.py
index fb0592d..35e9664 100644
--- a/nevergrad/optimization/sequences.py
+++ b/nevergrad/optimization/sequences.py
@@ -217,5 +217,7 @@ class Rescaler:
 
     def apply(self, point: tp.ArrayLike) -> np.ndarray:
         point = np.asarray(point)
-        factor = (1 - 2 * self.epsilon) / (self.sample_maxs - self.sample_mins)
-        return self.epsilon + factor * (point - self.sample_mins)  # type: ignore
+        width = self.sample_maxs - self.sample_mins
+        constant = width <= 0  # coordinates with only one value cannot be rescaled
+        factor = (1 - 2 * self.epsilon) / np.where(constant, 1.0, width)
+        return np.where(constant, point, self.epsilon + factor * (point - self.sample_mins))  # type: ignore
-- 
2.43.0


From 5a7d334769986f4d1f3c8fc9b3b050bd101cc8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 13/32] fix: the hypervolume is always a float

The volume of points which are all on the border was the integer 0, refused by tell.
---
 nevergrad/optimization/multiobjective/hypervolume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/hypervolume.py b/nevergrad/optimization/multiobjective/hypervolume.py
index b057fb4..3ff0502 100644
--- a/nevergrad/optimization/multiobjective/hypervolume.py
+++ b/nevergrad/optimization/multiobjective/hypervolume.py
@@ -227,7 +227,7 @@ class HypervolumeIndicator:
         """Recursive hypervolume computation. The algorithm is provided by Algorithm 3.
         of the original paper."""
         if self.multilist.chain_length(dimension - 1) == 0:
-            return 0
+            return 0.0
         assert self.multilist is not None
         if dimension == 0:
             return -float(self.multilist.sentinel.next[0].coordinates[0])
-- 
2.43.0


From 627a3b830e968bbe296510633643a257fb719266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 14/32] fix: coordinatewise mutation with the arity, and only
 for the selected variables

The inverse discretization used arity 2, so that all variables, selected or not, got
the same extreme value whatever the parent.
---
 nevergrad/optimization/mutations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nevergrad/optimization/mutations.py b/nevergrad/optimization/mutations.py
index df7a21f..4d0f677 100644
--- a/nevergrad/optimization/mutations.py
+++ b/nevergrad/optimization/mutations.py
@@ -111,12 +111,11 @@ class Mutator:
         while not any(boolean_vector):
             boolean_vector = self.random_state.rand(dimension) < (1.0 / dimension)
         discrete_data = discretization.threshold_discretization(parent, arity=arity)
-        discrete_data = np.where(  # type: ignore
-            boolean_vector,
-            discrete_data + self.random_state.choice([-1.0, 1.0], size=dimension) * velocity,
-            discrete_data,
+        discrete_data = np.clip(  # type: ignore
+            discrete_data + self.random_state.choice([-1.0, 1.0], size=dimension) * velocity, 0, arity - 1
         )
-        return discretization.inverse_threshold_discretization(discrete_data)
+        mutated = discretization.inverse_threshold_discretization(discrete_data, arity=arity)
+        return np.where(boolean_vector, mutated, parent)  # type: ignore
 
     def discrete_mutation(self, parent: tp.ArrayLike, arity: int = 2) -> tp.ArrayLike:
         """This is the most classical discrete 1+1 mutation of the evolution literature."""
-- 
2.43.0


From bdcf1be8acdd1f8b10aeea5d9f39c480c61faae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:11 +0000
Subject: [PATCH 15/32] fix: the result of a simulated job can be read several
 times

---
 nevergrad/benchmark/execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 70a827a..d854f60 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,8 +57,9 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        self._is_read = True
-        self._executor.notify_read(self)
+        if not self._is_read:  # a result can be asked several times, but is delivered only once
+            self._is_read = True
+            self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From b0c02e59bc3a7a4f5425a1c68a83ceb12bfa8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:11 +0000
Subject: [PATCH 16/32] fix: discarding an absent element of an OrderedSet does
 nothing

---
 nevergrad/common/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index f83286e..274192a 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -147,7 +147,8 @@ class OrderedSet(tp.MutableSet[X]):
         return key
 
     def discard(self, key: X) -> None:
-        del self._data[key]
+        """Removes an element, does nothing if it is absent (as for all sets)"""
+        self._data.pop(key, None)
 
     def __contains__(self, key: tp.Any) -> bool:
         return key in self._data
-- 
2.43.0


From d8acc6dd02f8b02901b17df8fc12870b95312d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:11 +0000
Subject: [PATCH 17/32] fix: UidQueue.discard removes all occurrences of the
 uid

---
 nevergrad/optimization/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 72aade6..f57b51b 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -345,9 +345,12 @@ class UidQueue:
             self.asked.discard(uid)
 
     def discard(self, uid: str) -> None:
-        if uid in self.asked:
-            self.asked.discard(uid)
+        """Removes the uid from the queues (it can be in both, or several times in the told queue)"""
+        if uid not in self.asked:
+            self.told.remove(uid)  # raises if the uid is unknown
         else:
+            self.asked.discard(uid)
+        while uid in self.told:
             self.told.remove(uid)
 
 
-- 
2.43.0


From 0a05df4ce50c00bf39081d0339d7c083ac725a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 18/32] fix: multiobjective DE can replace individuals which
 were told without being asked

---
 nevergrad/optimization/differentialevolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1324edc..e358d73 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -289,10 +289,10 @@ class _DE(base.Optimizer):
             else:  # multiobjective: replace if in pareto and some parents are not
                 pareto_uids = {c.uid for c in self.pareto_front()}
                 if candidate.uid in pareto_uids:
-                    non_pareto_pop = {c.uid for c in self.population.values()} - pareto_uids
+                    # the key in the population is not always the lineage (eg: individuals from a tell-not-asked)
+                    non_pareto_pop = [uid for uid, c in self.population.items() if c.uid not in pareto_uids]
                     if non_pareto_pop:
-                        nonpareto = {c.uid: c for c in self.population.values()}[list(non_pareto_pop)[0]]
-                        discardable = nonpareto.heritage["lineage"]
+                        discardable = non_pareto_pop[0]
         if discardable is not None:  # if we found a point to kick, kick it
             del self.population[discardable]
             self._uid_queue.discard(discardable)
-- 
2.43.0


From bcf044c9076aa0dc47d125dc2b567bdbd8e6a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 19/32] fix: evolution strategies select each individual only
 once

---
 nevergrad/optimization/es.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 41680ab..3421a99 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -78,6 +78,7 @@ class _EvolutionStrategy(base.Optimizer):
 
     def _select(self) -> None:
         choices = self._waiting + ([] if self._config.only_offsprings else list(self._population.values()))
+        choices = list({x.uid: x for x in choices}.values())  # an individual can be in both
         if self._rank_method is not None and self.num_objectives > 1:
             choices_rank = self._rank_method(choices, n_selected=self._config.popsize)
             choices = [x for x in choices if x.uid in choices_rank]
-- 
2.43.0


From ff2a2867b33e726cced638e0512eea4ef7c97ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 20/32] fix: multiobjective evolution strategies with
 individuals which are not told yet

---
 nevergrad/optimization/es.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 3421a99..cd9be1a 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -80,6 +80,7 @@ class _EvolutionStrategy(base.Optimizer):
         choices = self._waiting + ([] if self._config.only_offsprings else list(self._population.values()))
         choices = list({x.uid: x for x in choices}.values())  # an individual can be in both
         if self._rank_method is not None and self.num_objectives > 1:
+            choices = [x for x in choices if x._losses is not None]  # individuals not told yet can't be ranked
             choices_rank = self._rank_method(choices, n_selected=self._config.popsize)
             choices = [x for x in choices if x.uid in choices_rank]
         else:
-- 
2.43.0


From d779d89e589ebca8f7a25556a0e9057ba7bbd901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 21/32] fix: unregistering an object also removes its
 information

---
 nevergrad/common/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/common/decorators.py b/nevergrad/common/decorators.py
index 777e844..98befee 100644
--- a/nevergrad/common/decorators.py
+++ b/nevergrad/common/decorators.py
@@ -64,6 +64,7 @@ class Registry(tp.MutableMapping[str, X]):
 
     def __delitem__(self, key: str) -> None:
         del self.data[key]
+        self._information.pop(key, None)
 
     def __iter__(self) -> tp.Iterator[str]:
         return iter(self.data)
-- 
2.43.0


From 79d21e01a5a2c442505236b051f155e13590ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:15 +0000
Subject: [PATCH 22/32] fix: evolution strategies keep their population size
 when told points which were not asked

---
 nevergrad/optimization/es.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index cd9be1a..fc753a7 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -44,7 +44,7 @@ class _EvolutionStrategy(base.Optimizer):
         self._no_hypervolume = self._config.offsprings is None
 
     def _internal_ask_candidate(self) -> p.Parameter:
-        if self.num_ask < self._config.popsize:
+        if self.num_ask < self._config.popsize and len(self._population) < self._config.popsize:
             param = self.parametrization.sample()
             assert param.uid == param.heritage["lineage"]  # this is an assumption used below
             self._uid_queue.asked.add(param.uid)
@@ -62,6 +62,13 @@ class _EvolutionStrategy(base.Optimizer):
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: float) -> None:
         if self._config.offsprings is None:
             uid = candidate.heritage["lineage"]
+            if uid not in self._population and len(self._population) >= self._config.popsize:
+                # not from the population (told without being asked): can only replace the worst individual
+                worst_uid, worst = max(self._population.items(), key=lambda x: base._loss(x[1]))
+                if not loss < base._loss(worst):
+                    return
+                del self._population[worst_uid]
+                self._uid_queue.discard(worst_uid)
             self._uid_queue.tell(uid)
             parent_value = float("inf") if uid not in self._population else base._loss(self._population[uid])
             if loss < parent_value:
-- 
2.43.0


From 1f639cf325f1c1b2721d0e2ce819611d275bba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 23/32] fix: particles told without being asked keep track of
 their own best

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 28797d7..531146a 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1469,6 +1469,8 @@ class _PSO(base.Optimizer):
             candidate.heritage["speed"] = self._rng.uniform(-1.0, 1.0, self.parametrization.dimension)
         self.population[candidate.uid] = candidate
         self._uid_queue.tell(candidate.uid)
+        if loss <= base._loss(candidate.heritage.get("best_parent", candidate)):
+            candidate.heritage["best_parent"] = candidate
         if loss < base._loss(self._best):
             self._best = candidate
 
-- 
2.43.0


From ef9840c5cf19e7f06779532697997f555bdb21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:52 +0000
Subject: [PATCH 24/32] fix: evolution strategies failed when told a dominated
 multiobjective point which was not asked

---
 nevergrad/optimization/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index fc753a7..73c7024 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -71,7 +71,7 @@ class _EvolutionStrategy(base.Optimizer):
                 self._uid_queue.discard(worst_uid)
             self._uid_queue.tell(uid)
             parent_value = float("inf") if uid not in self._population else base._loss(self._population[uid])
-            if loss < parent_value:
+            if uid not in self._population or loss < parent_value:
                 self._population[uid] = candidate
         else:
             no_parent = next(iter(candidate.parents_uids), "#no_parent#") not in self._population
-- 
2.43.0


From 21dc97d21dac91621043cfe80a96bf83bfdfb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 25/32] Revert "fix: the result of a simulated job can be read
 several times"

This reverts commit bdcf1be8acdd1f8b10aeea5d9f39c480c61faae0.
---
 nevergrad/benchmark/execution.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index d854f60..70a827a 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,9 +57,8 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        if not self._is_read:  # a result can be asked several times, but is delivered only once
-            self._is_read = True
-            self._executor.notify_read(self)
+        self._is_read = True
+        self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From 322820bc2937b08bf218f44d44257c1df98ddec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:56 +0000
Subject: [PATCH 26/32] fix: symmetrized functions flip each variable around
 the middle of its own bounds

---
 nevergrad/functions/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index 77878c3..4fa1267 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -335,8 +335,10 @@ class ArrayExperimentFunction(ExperimentFunction):
             self.slope_coefficients = np.ones(self.dimension)
             for i in range(self.dimension):  # pylint: disable=consider-using-enumerate
                 if symmetry % 2 == 1:
-                    if self.parametrization.bounds[0] is not None and self.parametrization.bounds[1] is not None:  # type: ignore
-                        middle = (self.parametrization.bounds[0][0] + self.parametrization.bounds[1][0]) / 2.0  # type: ignore
+                    lower, upper = self.parametrization.bounds  # type: ignore
+                    if lower is not None and upper is not None:
+                        # each variable has its own bounds
+                        middle = np.broadcast_to((lower + upper) / 2.0, (self.dimension,))[i]
                     else:
                         middle = 0.0
                     self.threshold_coefficients[i] = 2.0 * middle  # Otherwise we keep 0.
-- 
2.43.0


From 66e73a188bf5a3d05ca89d0572667d811b84d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:15 +0000
Subject: [PATCH 27/32] fix: the order of the parameters logger was ignored

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 43ec8b8..b1f6eb0 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -159,7 +159,7 @@ class ParametersLogger:
             data["#meta-sigma"] = candidate._meta["sigma"]  # for TBPSA-like algorithms
         if candidate.generation > 1:
             data["#parents_uids"] = candidate.parents_uids
-        for name, param in helpers.flatten(candidate, with_containers=False, order=1):
+        for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
             if isinstance(val, (np.float64, np.int_, np.bool_)):
                 val = val.item()
-- 
2.43.0


From bb4cadc02a19714a22d4561875ff3be28784dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 28/32] fix: the optimization logger failed when registered on
 ask with several objectives

---
 nevergrad/optimization/callbacks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index b1f6eb0..a88a88a 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -89,7 +89,9 @@ class OptimizationLogger:
                 x = optimizer.provide_recommendation()
                 self._logger.log(self._log_level, "After %s, recommendation is %s", optimizer.num_tell, x)
             else:
-                losses = optimizer._hypervolume_pareto.get_min_losses()  # type: ignore
+                pareto = optimizer._hypervolume_pareto
+                # there is no loss yet at the first "ask"
+                losses = [] if pareto is None or not pareto._pf.get_raw() else pareto.get_min_losses()
                 self._logger.log(
                     self._log_level,
                     "After %s, the respective minimum loss for each objective in the pareto front is %s",
-- 
2.43.0


From e7b5c3c8a4676bd65f75987c7ef3e61d0d063e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:49 +0000
Subject: [PATCH 29/32] fix: a non-dominated point was left out of the Pareto
 front when its volume was lost in the rounding

---
 nevergrad/optimization/multiobjective/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index 158dce1..f5c4fca 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -148,6 +148,10 @@ class HypervolumePareto:
                 if (stored_losses <= losses).all():
                     distance_to_pareto = min(distance_to_pareto, min(losses - stored_losses))
             assert distance_to_pareto >= 0
+            if distance_to_pareto == float("Inf") and (losses < self._upper_bounds).all():
+                # no point is better, so this one is on the front: its volume was lost in the rounding
+                self._pf.add_to_pareto(parameter)
+                return -self._best_volume
             return 0.0 if self._no_hypervolume else -new_volume + distance_to_pareto
 
     def pareto_front(
-- 
2.43.0


From 8b8d15ab9014f65cc7b5c4a1c4133f11543cddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:49 +0000
Subject: [PATCH 30/32] fix: losses told as an array were shared with the array
 of the user

---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 99cadf1..4015cf1 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -348,7 +348,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel()
+            loss = np.array(loss, dtype=float).ravel()  # copied, since it is recorded in the candidate
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From 472c3cfd01e5e2a3a7e31586fddd55927f027422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:49 +0000
Subject: [PATCH 31/32] fix: the value given to an array parameter was shared
 with the array of the user

---
 nevergrad/parametrization/_layering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index feb9275..05f23b3 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -224,7 +224,7 @@ class ArrayCasting(Layered):
     def _layered_set_value(self, value: tp.ArrayLike) -> None:
         if not isinstance(value, (np.ndarray, tuple, list)):
             raise TypeError(f"Received a {type(value)} in place of a np.ndarray/tuple/list")
-        super()._layered_set_value(np.asarray(value))
+        super()._layered_set_value(np.array(value))  # copied, since the user may modify it later
 
 
 class Filterable:
-- 
2.43.0


From ce826be61dc9ae571c1018da523536aa1dbf107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:49 +0000
Subject: [PATCH 32/32] fix: a frozen parameter could be modified in place
 through its value

---
 nevergrad/parametrization/_layering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 05f23b3..7e94f84 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -183,7 +183,10 @@ class ValueProperty(tp.Generic[In, Out]):
         # pylint: disable=pointless-statement
         if hasattr(obj, "random_state"):
             getattr(obj, "random_state")  # very hacky way to initialize random_state
-        return obj._layers[-1]._layered_get_value()  # type: ignore
+        value = obj._layers[-1]._layered_get_value()
+        if isinstance(value, np.ndarray) and getattr(obj, "_frozen", False):
+            value = value.copy()  # otherwise a frozen parameter could be modified through its value
+        return value  # type: ignore
 
     def __set__(self, obj: Layered, value: In) -> None:
         self.__delete__(obj)
-- 
2.43.0

