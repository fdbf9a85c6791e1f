"""texts of the properties: id -> (title, statement, quantifier kinds, quantifier text, why tests cannot settle it)"""
P = {}


def prop(i, title, statement, over, text, why):
    P[i] = dict(title=title, statement=statement, over=over.split(), text=text, why=why)


prop("C01", "Values of a bounded parameter always lie within its bounds",
     "Whatever internal data an optimizer, a mutation, a sampler or a user puts into a bounded parameter, the value read from it lies inside the declared (scalar or per-coordinate) bounds: all bounding methods, integer casting (whenever an integer fits inside the bounds), log-distributed parameters, modulo and clipping transforms included. Every candidate that an optimizer asks or recommends on a bounded parametrization is inside the bounds.",
     "inputs configurations", "all finite internal data, all bounds lo < hi (scalar or array), array sizes, bounding methods, layer stacks and optimizers",
     "tests read a handful of sampled values per bounding method; the statement is about every real data vector and every pair of bounds")
prop("C02", "Transforms are exact inverses and reject impossible values",
     "For every transform, going backward then forward gives back the value, and for the ones that lose no information going forward then backward gives back the data. The backward direction of a bounded transform raises ValueError exactly when some coordinate lies outside the bounds. Building a transform from unordered or missing bounds, or from a zero coefficient, raises an error.",
     "inputs configurations", "all real vectors of any size, all bounds and coefficients",
     "tests use a few points; an off-by-one-coordinate check, a wrong sign or a wrong scale on one branch passes them")
prop("C03", "Standardized data round-trips and container components own disjoint slices",
     "Writing standardized data to a parameter and reading it back with the same reference gives the same data and writes nothing but that parameter. The data of a dictionary or tuple is the concatenation of the data of its components in a fixed order: component slices are disjoint and cover everything, the dimension is the sum of the dimensions. Data of a wrong size is refused with ValueError.",
     "inputs configurations", "all data vectors, references, step sizes, and all trees of containers",
     "tests check a few fixed trees; slicing errors show up only for particular sizes and nestings")
prop("C04", "Candidates are independent, keep their lineage, and frozen ones never change",
     "A copy, child or sample of a parameter shares no mutable state with it: setting, mutating or recombining one never changes the value of another. Children record the uid of their parents and are one generation further, every candidate has a fresh uid. Once frozen, a parameter refuses every modification with an error and keeps its value.",
     "inputs histories", "all parametrization trees and all sequences of spawn, copy, sample, mutate, recombine, set and freeze operations",
     "aliasing only shows when a particular sequence of operations modifies the shared part; tests try few")
prop("C05", "What is set on a parameter is what is read back, through all its layers",
     "Setting an admissible value on a parameter (bounded, integer, log, scaled by arithmetic operations, modulo, choice, containers) and reading it gives this value back, without modifying the object given by the user. Arithmetic on parameters gives the same operation applied to the value, announced bounds contain all values after any chain of operations. The effect of layers follows their level and then the order in which they were added.",
     "inputs configurations", "all admissible values, all chains of operations, all orders of layer registration",
     "the number of chains of operations and of values is unbounded; tests try isolated ones")
prop("C06", "Categorical variables select valid options with the documented probabilities",
     "A choice always reads indices in the range of its options and the values of the selected options, setting an option makes it the selected one. Probabilities are nonnegative, sum to 1 for each line of weights, are a softmax of the weights, and draws follow them, including with infinite weights. Ordered choices move by the drawn transition and stay in range, discretization by thresholds covers all indices.",
     "inputs configurations", "all weight matrices (any number of lines and options, including infinite entries), draws, and transitions",
     "out-of-range or biased selections appear for particular weights and draws only")
prop("C07", "Constraints and tabu memory decide exactly which candidates are sent",
     "A candidate satisfies its constraints exactly when every registered check passes, on the parameter itself and on all the components below, and it is not among the remembered tabu values; the tabu memory holds exactly the last accepted values up to its length. An asked candidate satisfies the constraints unless all allowed tentatives failed, in which case one warning is sent.",
     "inputs histories configurations", "all sequences of candidates, tabu lengths, checkers (boolean or penalty) and parametrization trees",
     "tests register one checker and look at few candidates; the memory is a history property")
prop("C08", "Asks and tells are accounted for exactly, in any order",
     "After any sequence of ask, suggest and tell, the number of asks, tells and tells of never-asked points are exactly the ones that took place, each ask gives a new candidate with a fresh uid which cannot be modified, suggestions are asked last-in first-out. Every told value reaches the algorithm exactly once, in the right way depending on whether the point was asked, and the candidate records its loss. The number of objectives cannot change after the first tell.",
     "histories schedules", "all interleavings of ask, suggest, tell (asked or not, repeated, out of order), for every optimizer of the registry",
     "the number of interleavings is unbounded; tests run a few ask/tell loops in order")
prop("C09", "The recommendation is the best evaluated point over the whole history",
     "At any time the reported best point for each criterion (minimum, average, pessimistic, optimistic) has the smallest estimation among all the points told so far and still remembered, also when points are evaluated several times and their estimations go up. The minimum criterion is the smallest loss ever told. Recommending does not modify the state of the optimizer, and an optimizer whose recommendation relies on the history returns such a point.",
     "histories inputs", "all sequences of tells, with repeated points, ties and any losses",
     "the incumbent becomes stale only when it is told again with a worse loss in a particular order")
prop("C10", "Statistics of repeated evaluations of a point are exact",
     "After any number of evaluations of the same point, the recorded count, mean, mean square, minimum and variance are those of the told losses, the variance is never negative. The optimistic and pessimistic estimations surround the average by the documented margin. The candidate kept for the point is the one with the smallest loss.",
     "histories inputs", "all sequences of losses with absolute values up to 1e10",
     "running-average formulas are wrong only after several evaluations; tests do few")
prop("C11", "Pruning the archive keeps the best points unaltered",
     "Pruning only occurs when the archive has reached its maximal length, it then removes entries and alters none of those it keeps. No removed point is strictly better than a kept one for the retained criteria, and it keeps at least the minimal number of points when this many are distinct. The default limits depend on the number of workers and dimension so that the minimum always fits in the maximum.",
     "histories inputs", "all archives (any number of points, any statistics), all limits",
     "pruning starts after thousands of points, tests prune one archive")
prop("C12", "Minimization stops within budget and loses no evaluation, for any executor",
     "A minimization evaluates the function exactly once per asked candidate and tells exactly that value for that candidate, for any number of workers, batch mode and any completion order of the jobs; it terminates with as many evaluations as the remaining budget, never more. At no time are there more running jobs than workers. It returns the recommendation of the optimizer, and an exception of the function is raised to the caller.",
     "schedules histories configurations", "all completion orders, numbers of workers, budgets, batch modes and previously consumed budgets",
     "tests use the sequential executor or one pool; the completion orders are unbounded")
prop("C13", "The Pareto front is exactly the set of non-dominated told points",
     "For multiobjective optimization, after any sequence of tells, every told point strictly better than the reference (provided, or deduced from the first points) is represented in the returned front: it is a member, or a member is at least as good on all objectives. No member of the front is dominated by another member, nor by a told point strictly better than the reference; members are told candidates with their losses, each candidate once. A requested subset is made of members and has the requested size, or is the whole front when it is not larger. Once the reference is set, the scalar loss given to the algorithm for a point inside the reference is minus the volume of the front when the point improves it, and is never better than that otherwise; a point beyond the reference gets its (nonnegative) excess over it.",
     "histories inputs", "all sequences of loss vectors, any number of objectives, ties included",
     "tests check one or two short sequences")
prop("C14", "The hypervolume is the exact measure of the dominated region",
     "For any set of points not beyond the reference point, in any number of dimensions, the computed hypervolume equals the measure of the union of the boxes between the points and the reference. It does not depend on the order, on duplicates, nor on dominated points, computing it does not modify the points, and computing again gives the same value.",
     "inputs", "all point sets and references",
     "tests compare to a few known values; errors need particular configurations of ties or dimensions")
prop("C15", "Non-dominated sorting ranks exactly by Pareto dominance",
     "The fronts form a partition of the candidates: nobody in a front is dominated by a member of the same front, and everybody in a later front is dominated by somebody in the front just before. The crowding distance gives infinite values to the extreme points of each objective and otherwise sums the normalized gaps between neighbours. The ranking sorts by front then by decreasing crowding distance and truncates to the requested number.",
     "inputs", "all sets of candidates with any losses and any number of objectives",
     "tests rank one population")
prop("C16", "Quasi-random samplers stay in the unit cube and are stratified as documented",
     "All point samplers produce exactly the requested number of points in [0, 1] with the requested dimension. Latin hypercube samples have exactly one point per stratum on each axis. Halton and Hammersley points are the radical inverses in successive prime bases (after the scrambling permutations when they are enabled, which map 0 to 0 and are bijections). One-shot optimizers ask finite points, as many as their budget; with an opposition mode one point out of two is a symmetric (never further from the center) of the previous one.",
     "inputs configurations", "all dimensions, budgets, indices and scramblings",
     "tests check a small prefix of small sequences")
prop("C17", "Discrete mutations and crossovers change exactly what they should",
     "Discrete mutations return a vector of the same shape without modifying the parent, change at least one coordinate whenever they promise to, and leave the not selected coordinates untouched. Crossovers only use coordinates of the parents at the same position, in contiguous segments for point crossovers. Portfolio and fast-genetic-algorithm mutation rates stay inside the promised range.",
     "inputs", "all vectors, sizes, random draws",
     "tests use one vector and one seed")
prop("C18", "The simulated executor delivers jobs in order of simulated completion time",
     "With simulated delays, jobs complete in the order of their simulated end time (submission time plus delay, ties in order of submission), the simulated time never goes backwards, and a job is declared done exactly when nothing else ends before it. Every job is executed exactly once and its result, read once, is the value of the function on its arguments. Results are never delivered before they are done.",
     "schedules histories", "all sequences of submissions, delays and result requests",
     "tests play two fixed schedules")
prop("C19", "Splitting a benchmark over jobs loses and duplicates nothing",
     "Any split of a benchmark between jobs partitions the experiments: each index belongs to exactly one chunk, the lengths add up, and iterating the chunks executes each experiment exactly once with the requested repetitions and seeds. Each experiment gives one row per run, and its description determines equality.",
     "inputs configurations", "all numbers of experiments, repetitions, and splits",
     "tests use one or two splits")
prop("C20", "Test functions keep the value at the optimum under their random transforms",
     "A benchmark function splits its useful coordinates in disjoint blocks of the requested dimension; each block evaluates the core function on its coordinates minus a translation, times an orthogonal matrix when rotated, and its value is the requested aggregate (max, mean or sum) of the blocks' values, so that only the useful coordinates matter. The noise-free evaluation is deterministic, and a call without noise level returns it; noise is added only when the level is positive and, for dissymmetric noise, on one side only. Symmetrized functions flip signs of variables around the middle of their bounds, each index flipping a different set, so that norms and bounds are kept. Elementary core functions satisfy their documented minimum in every dimension. A copy is equivalent to the function.",
     "inputs configurations", "all inputs, dimensions, block structures, seeds",
     "tests evaluate fixed seeds on a few points")
prop("C21", "Queues and ordered sets neither lose nor duplicate elements",
     "An ordered set holds each element once and iterates in the order of the last addition (adding an element again moves it to the end), whatever the sequence of additions and removals. The queue of pending population members hands out the uids which were told first, in the order they were told, then the one whose answer has been awaited for the longest time, fails only when it knows none, and discards exactly what is asked to be discarded, so that no member of the population is lost or starved.",
     "histories", "all sequences of add, remove, ask, tell and discard",
     "history property, tests check single short sequences")
prop("C22", "Losses told are sanitized identically everywhere",
     "For every double told as a loss, the value recorded on the candidate, given to the algorithm and archived is that value if it is at most 5e20, and 5e20 otherwise (including nan and infinity), with one warning. Anything which is not a scalar, or array or sequence of numbers, is refused before any record changes. A one-element sequence is equivalent to the scalar.",
     "inputs", "all IEEE doubles and scalar types",
     "tests use nan and inf once; the comparison must be right for each double")
prop("C23", "Constraint violations only ever penalize, and violators are never recommended",
     "The penalty of a candidate is nonnegative, zero exactly when all checks pass, and the algorithm never sees a violating candidate with a loss below the one it was given. A candidate told with a positive violation, or violating a registered constraint when the budget is known, never becomes the recommended point, while a feasible candidate is recorded with its own loss. The accounting of asks and tells is not altered by violations.",
     "inputs histories", "all losses, violation vectors, checkers and penalty styles",
     "tests check one constrained problem with one optimizer")
prop("C24", "Population-based algorithms never replace an individual by a worse one",
     "In differential evolution a told trial replaces its parent only if it is not worse, so that the loss of each population member and of the best never increases. Evolution strategies and particle swarms keep the best of the candidates they are documented to compare. The population size never exceeds its target once initialized and points which were never asked are accepted as well (a point which was not asked replaces a member or is left aside, but never makes the population exceed its target).",
     "histories inputs", "all sequences of tells in any order",
     "tests look only at final losses")
prop("C25", "Callbacks, early stopping and registries behave as documented",
     "Registered callbacks are called exactly once for each ask or tell, in order. Early stopping stops exactly when its criterion first holds, periodic loggers write exactly at their interval, and a log reads back as it was written. A registry returns what was registered under a name and refuses to register a name twice.",
     "histories inputs", "all sequences of tells, all tolerances and intervals",
     "tests use short runs and a single threshold")

NOT_APPLICABLE = {
    "C26": "seeded determinism of every optimizer relates two complete runs of large third-party algorithms (cma, bayesian optimization, nlopt...): no function contract in reach expresses it",
    "C27": "pickling and resuming relies on CPython's pickle protocol and on third-party objects, which have no contract here; per-function contracts cannot express equality of the two futures",
    "C28": "the thread hand-over of recast optimizers is a concurrent schedule property of threading primitives; the deductive verifier here is sequential",
}
EXTRA_NA = {
    "C26": ("A fixed seed gives the same run", "With the same seed set on the parametrization, any optimizer asks the same sequence of points for the same sequence of losses.", "histories configurations", "all optimizers, seeds and histories", "tests fix a few seeds and first recommendations"),
    "C27": ("A dumped optimizer resumes exactly where it stopped", "An optimizer which is dumped and loaded behaves as the original from then on.", "histories crash_points", "all histories before and after the dump", "tests dump after a few iterations"),
    "C28": ("Recast optimizers exchange each point and loss exactly once with their thread", "Optimizers which wrap an ask-free algorithm in a thread give each requested point to the user and each told loss to the algorithm exactly once, and never block forever.", "schedules", "all thread schedules", "tests run one schedule"),
}
