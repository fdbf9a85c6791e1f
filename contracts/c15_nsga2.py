"""C15: non-dominated sorting and crowding distance."""
import math
import numpy as np
from ngvc.seq import Inv
from ngvc.harness import contract, bounded, partial
from nevergrad.optimization.multiobjective import nsga2
from nevergrad.parametrization import parameter as p
from contracts import gen

N = "nevergrad.optimization.multiobjective.nsga2:"


class _C:
    """what the ranking uses of a candidate"""

    def __init__(self, uid, losses=None, loss=None):
        self.uid, self.losses, self.loss, self._meta = uid, losses, loss, {}

    def __repr__(self):
        return self.uid


@contract("C15", [N + "FastNonDominatedRanking.compare"], trials=300)
def compare(S):
    """any number of objectives: -1 (1) exactly when the first (second) dominates the other one"""
    d = S.size("d", 1, 4)
    ties = not S.symbolic and S.bool("ties")
    a, b = S.arr("a", d, -3, 3) if not S.symbolic else S.arr("a", d), S.arr("b", d, -3, 3) if not S.symbolic else S.arr("b", d)
    if ties:
        a, b = np.round(a), np.round(b)
    dom = lambda x, y: S.land(S.forall(d, lambda j: S.at(x, j) <= S.at(y, j)), S.exists(d, lambda j: S.at(x, j) < S.at(y, j)))  # noqa
    r = nsga2.FastNonDominatedRanking().compare(_C("a", a), _C("b", b))
    S.prove("first", S.iff(r == -1, dom(a, b)))
    S.prove("second", S.iff(r == 1, dom(b, a)))
    S.prove("values", S.lor(r == -1, r == 0, r == 1))


def _poset(S, n):
    """any strict partial order on n candidates"""
    dom = {}
    for i in range(n):
        for j in range(i + 1, n):
            r = S.choose(f"d{i}{j}", [0, -1, 1])
            dom[i, j], dom[j, i] = r == -1, r == 1
            # transitivity
            for k in range(j):
                if k == i:
                    continue
                for a, b, c in ((i, j, k), (i, k, j), (j, i, k), (j, k, i), (k, i, j), (k, j, i)):
                    if all(q in dom for q in ((a, b), (b, c), (a, c))) and dom[a, b] and dom[b, c]:
                        S.assume(dom[a, c])
    return dom


def _check_fronts(S, fronts, cands, dom, k=None):
    n = len(cands)
    idx = {id(c): i for i, c in enumerate(cands)}
    flat = [idx[id(c)] for f in fronts for c in f]
    S.prove("no-duplicate", len(flat) == len(set(flat)))
    if k is None:
        S.prove("partition", sorted(flat) == list(range(n)))
    else:
        S.prove("enough", len(flat) >= min(k, n))
        S.prove("not-more-fronts-than-needed", not fronts or len(flat) - len(fronts[-1]) < max(k, 1))
    for q, f in enumerate(fronts):
        S.prove("not-empty", len(f) > 0)
        for c in f:
            i = idx[id(c)]
            S.prove("not-dominated-in-front", not any(dom[idx[id(o)], i] for o in f if o is not c))
            S.prove("dominated-by-previous-front", q == 0 or any(dom[idx[id(o)], i] for o in fronts[q - 1]))
            S.prove("not-dominated-by-later", not any(dom[idx[id(o)], i] for g in fronts[q:] for o in g if o is not c))
            S.prove("rank", c._meta["non_dominated_rank"] == q)
    rest = [i for i in range(n) if i not in set(flat)]
    S.prove("left-out-are-dominated", all(any(dom[j, i] for j in flat) for i in rest))


def _ranking(S, n):
    dom = _poset(S, n)
    cands = [_C(f"c{i}") for i in range(n)]
    fr = nsga2.FastNonDominatedRanking()
    S.patch(fr, "compare", lambda a, b: -1 if dom[int(a.uid[1:]), int(b.uid[1:])] else 1 if dom[int(b.uid[1:]), int(a.uid[1:])] else 0, both=True)
    _check_fronts(S, fr.compute_ranking(list(cands)), cands, dom)
    for k in range(1, n + 1):
        _check_fronts(S, fr.compute_ranking(list(cands), k=k), cands, dom, k)


@partial("C15", [N + "FastNonDominatedRanking.compute_ranking"], trials=150, bound="every strict partial order on at most 4 candidates")
def ranking_4(S):
    _ranking(S, S.choose("n", [0, 1, 2, 3, 4]))


@partial("C15", [N + "FastNonDominatedRanking.compute_ranking"], trials=150, bound="every strict partial order on 5 candidates", max_paths=20000, deep=True)
def ranking_5(S):
    _ranking(S, 5)


def _distance_oracle(S, vals, n, d, i):
    """sum of the normalised gaps around candidate i, None if it is an extreme point of an objective (ties: any order)"""


@partial("C15", [N + "CrowdingDistance.accumulate_distance_per_objective", N + "CrowdingDistance.compute_distance"], trials=200, bound="fronts of at most 4 candidates with any losses, 1 or 2 objectives")
def crowding(S):
    n = S.choose("n", [1, 2, 3, 4])
    d = S.choose("d", [1, 2])
    single = d == 1
    if n == 4 and d == 2 and S.symbolic:
        return  # too many orders: covered by one objective at a time
    v = [[S.real(f"l{i}{j}", -3, 3) if not S.symbolic else S.real(f"l{i}{j}") for j in range(d)] for i in range(n)]
    cands = [_C(f"c{i}", S.array(v[i]) if not single else None, v[i][0]) for i in range(n)]
    order = list(cands)
    nsga2.CrowdingDistance().compute_distance(order)
    S.prove("front-kept", order == cands)
    _crowding_post(S, cands, v, n, d)


def _inf(x):
    return isinstance(x, float) and x == float("inf")


def _crowding_post(S, cands, v, n, d):
    got = [c._meta["crowding_distance"] for c in cands]
    if n <= 2:
        S.prove("small", all(g == float("inf") for g in got))
        return
    # which candidates are extreme: first and last of a stable sort of each objective
    ext, want = set(), [0.0] * n
    for j in range(d):
        o = list(range(n))
        for a in range(1, n):  # stable insertion sort
            b = a
            while b > 0 and v[o[b]][j] < v[o[b - 1]][j]:
                o[b], o[b - 1] = o[b - 1], o[b]
                b -= 1
        ext |= {o[0], o[-1]}
        span = v[o[-1]][j] - v[o[0]][j]
        for q in range(1, n - 1):
            gap = v[o[q + 1]][j] - v[o[q - 1]][j]
            want[o[q]] = want[o[q]] + (gap / span if span > 0 else 0.0)
    for i in range(n):
        if i in ext:
            S.prove("extreme-infinite", _inf(got[i]))
        else:
            S.prove("gaps", S.eq(got[i], want[i]))


@partial("C15", [N + "CrowdingDistance.accumulate_distance_per_objective"], trials=200, bound="fronts of 3 to 5 candidates with any losses and any distances so far, one objective at a time", max_paths=8000)
def crowding_accumulate(S):
    n = S.choose("n", [3, 4, 5])
    v = [S.real(f"l{i}", -3, 3) if not S.symbolic else S.real(f"l{i}") for i in range(n)]
    w = [S.real(f"w{i}", 0, 3) if not S.symbolic else S.real(f"w{i}", 0) for i in range(n)]
    i = S.choose("objective", [0, 1])
    cands = [_C(f"c{q}", S.array([v[q], 0.5] if i == 0 else [0.25 * q, v[q]])) for q in range(n)]
    for c, x in zip(cands, w):
        c._meta["crowding_distance"] = x
    nsga2.CrowdingDistance().accumulate_distance_per_objective(list(cands), i)
    got = [c._meta["crowding_distance"] for c in cands]
    o = list(range(n))
    for a in range(1, n):
        b = a
        while b > 0 and v[o[b]] < v[o[b - 1]]:
            o[b], o[b - 1] = o[b - 1], o[b]
            b -= 1
    span = v[o[-1]] - v[o[0]]
    S.prove("extremes", all(_inf(got[o[q]]) for q in (0, -1)))
    for q in range(1, n - 1):
        gap = v[o[q + 1]] - v[o[q - 1]]
        S.prove("gap-added", S.eq(got[o[q]], w[o[q]] + (gap / span if span > 0 else 0.0)))


class _Dist:
    """the distances of the candidates of a front of any size: finite values and infinite flags"""

    def __init__(self, S, n, acc, inf):
        self.S, self.n, self.acc, self.inf = S, n, acc, inf


class _Meta:
    def __init__(self, g, k):
        self.g, self.k = g, k

    def __getitem__(self, x):
        self.g.S.prove("meta-name", x == "crowding_distance")
        self.g.S.prove("reads-a-finite-distance", self.g.inf[self.k] == 0)
        return self.g.acc[self.k]

    def __setitem__(self, x, v):
        self.g.S.prove("meta-name", x == "crowding_distance")
        if isinstance(v, float) and v == float("inf"):
            self.g.inf[self.k] = 1
        else:
            self.g.acc[self.k] = v
            self.g.inf[self.k] = 0


class _Member:
    """the k-th candidate of a front, its losses are the line k of the table"""

    def __init__(self, g, k, table, d):
        self._meta, self.k, self.uid = _Meta(g, k), k, ("uid", k)
        self.losses = table[k, :]
        self.loss = table[k, 0]


class _Front:
    """a front of which the candidates are known by their rank for the objective it is sorted by"""

    def __init__(self, S, first, seq):
        self.S, self.first, self.seq = S, first, seq

    def __getitem__(self, k):
        return self.seq[self.first] if isinstance(k, int) and k == 0 else self.unsupported()

    def unsupported(self, *a):
        from ngvc.core import Unsupported

        raise Unsupported("an unsorted front is used otherwise than by sorting it")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self.unsupported()

    def _ngvc_iter(self):
        self.unsupported()

    _ngvc_len = __iter__ = __len__ = unsupported


def _gap_inv(S):
    def inv(st, k):
        g, n = S.g, S.n
        return S.land(
            S.forall(n, lambda q: S.iff(g.inf[q] == 1, S.lor(q == 0, q == n - 1))),
            S.forall(n, lambda q: S.lor(g.inf[q] == 1, g.inf[q] == 0)),
            S.forall(n, lambda q: S.implies(S.land(q >= 1, q < n - 1), lambda: g.acc[q] == S.ite(q < k + 1, S.want(q), S.before[q]))),
        )

    def havoc(st):
        m = len(S.c.inputs)
        S.g.acc, S.g.inf = S.arr(f"acc{m}", S.n), S.intarr(f"inf{m}", S.n)
        return {}

    key = N + "CrowdingDistance.accumulate_distance_per_objective"
    return {key + "#0": Inv(inv, havoc, name="gaps-so-far"), key + "#1": Inv(inv, havoc, name="gaps-so-far")}


@contract("C15", [N + "CrowdingDistance.accumulate_distance_per_objective"], trials=200, invariants=_gap_inv)
def gaps_of_one_objective(S):
    """fronts of any size, any losses, any objective: the first and the last candidates in the order of this objective get an infinite distance, each of the others the gap between its
    two neighbours in this order, divided by the range of the objective if it is not 0"""
    n = S.size("n", 1, 7)
    S.assume(n >= 1)
    multi = S.choose("multi", [True, False])
    if S.symbolic:
        d = S.size("d", 2, 4) if multi else 1
        S.assume(d >= (2 if multi else 1))
        i = S.int("objective", 0) if multi else 0
        S.assume(i < d)
        table = S.matrix("losses", n, d)
        S.assume(S.forall(n, lambda a: S.forall(n, lambda b: S.implies(a <= b, lambda: table[a, i] <= table[b, i]))))
        before = S.arr("before", n)
        S.n, S.before = n, before
        S.g = g = _Dist(S, n, before.copy(), S.intarr("flags", n, 0, 0))
        seq = S.seqof(n, lambda k: _Member(g, k, table, d))
        front = _Front(S, S.int("first", 0), seq)
        S.assume(front.first < n)
        span = table[n - 1, i] - table[0, i]

        def want(q):
            gap = table.at(q + 1, i) - table.at(q - 1, i)
            return before[q] + S.ite(span == 0, gap, gap / S.ite(span == 0, 1, span))

        S.want = want
        sorts = []

        def order(x, key=None, reverse=False):
            S.prove("sorts-the-front", x is front and reverse is False)
            t = S.int(f"any{len(S.c.inputs)}", 0)
            S.assume(t < n)
            S.prove("by-the-objective", key(seq[t]) == table[t, i])
            sorts.append(1)
            return seq

        S.patch(nsga2, "sorted", order)  # (trusted: a permutation ordered by the key)
        nsga2.CrowdingDistance().accumulate_distance_per_objective(front, i)
        S.prove("extremes", S.land(g.inf[0] == 1, g.inf[n - 1] == 1))
        S.prove("gaps", S.forall(n, lambda q: S.implies(S.land(q >= 1, q < n - 1), lambda: S.land(g.inf[q] == 0, g.acc[q] == want(q)))))
        return
    r = np.random.RandomState(S.int("seed", 0, 9999))
    d = S.size("d", 2, 4) if multi else 1
    i = S.int("objective", 0, d - 1)
    v = r.randint(0, 6, size=(n, d)) / 2.0
    v[:, i] = v[r.permutation(n), i]
    cands = [_C(f"c{q}", v[q].copy() if multi else None, float(v[q, 0])) for q in range(n)]
    before = r.randint(0, 5, size=n).astype(float)
    for c, x in zip(cands, before):
        c._meta["crowding_distance"] = float(x)
    nsga2.CrowdingDistance().accumulate_distance_per_objective(list(cands), i)
    o = sorted(range(n), key=lambda q: v[q, i])
    span = v[o[-1], i] - v[o[0], i]
    got = [c._meta["crowding_distance"] for c in cands]
    S.prove("extremes", all(_inf(got[o[q]]) for q in (0, -1)))
    S.prove("gaps", all(S.eq(got[o[q]], before[o[q]] + (v[o[q + 1], i] - v[o[q - 1], i]) / (span if span else 1.0)) for q in range(1, n - 1)))


def _zero_inv(S):
    def havoc(st):
        m = len(S.c.inputs)
        S.g.acc, S.g.inf = S.arr(f"acc{m}", S.n), S.intarr(f"inf{m}", S.n)
        return {}

    def zeros(st, k):
        return S.forall(S.n, lambda q: S.implies(q < k, lambda: S.land(S.g.acc[q] == 0, S.g.inf[q] == 0)))

    def calls(st, k):
        return S.land(S.calls == k)

    def hcalls(st):
        S.calls = S.int(f"calls{len(S.c.inputs)}", 0)
        return {}

    key = N + "CrowdingDistance.compute_distance"
    return {key + "#0": Inv(zeros, havoc, name="reset-so-far"), key + "#1": Inv(calls, hcalls, name="objectives-so-far")}


@contract("C15", [N + "CrowdingDistance.compute_distance"], trials=200, invariants=_zero_inv)
def all_objectives(S):
    """fronts of any size, any number of objectives: all distances are infinite for at most two candidates; otherwise they start at 0 and each objective is accumulated once"""
    n = S.size("n", 0, 6)
    multi = S.choose("multi", [True, False])
    if S.symbolic:
        d = S.size("d", 2, 4) if multi else 1
        S.assume(d >= (2 if multi else 1))
        table = S.matrix("losses", n, d)
        S.n, S.calls = n, 0
        S.g = g = _Dist(S, n, S.arr("before", n), S.intarr("flags", n, 0, 0))
        front = S.seqof(n, lambda k: _Member(g, k, table, d))

        def accumulate(f, i):
            S.prove("whole-front", f is front)
            S.prove("next-objective", S.land(i == S.calls, i < d))
            S.prove("starts-at-zero", S.implies(i == 0, lambda: S.forall(n, lambda q: S.land(g.acc[q] == 0, g.inf[q] == 0))))
            S.calls = S.calls + 1

        cd = nsga2.CrowdingDistance()
        S.patch(cd, "accumulate_distance_per_objective", accumulate)
        cd.compute_distance(front)
        S.prove("small", S.implies(n <= 2, lambda: S.land(S.calls == 0, S.forall(n, lambda q: g.inf[q] == 1))))
        S.prove("each-objective-once", S.implies(n > 2, lambda: S.calls == d))
        return
    d = S.size("d", 2, 4) if multi else 1
    cands = [_C(f"c{q}", np.zeros(d) if multi else None, 0.0) for q in range(n)]
    calls = []
    cd = nsga2.CrowdingDistance()
    front = list(cands)
    S.patch(cd, "accumulate_distance_per_objective", lambda f, i: calls.append((f is front, i, [c._meta.get("crowding_distance") for c in f])), both=True)
    for c in cands:
        c._meta["crowding_distance"] = 7.0
    cd.compute_distance(front)
    if n <= 2:
        S.prove("small", calls == [] and all(_inf(c._meta["crowding_distance"]) for c in cands))
    else:
        S.prove("each-objective-once", [c[1] for c in calls] == list(range(d)) and all(c[0] for c in calls) and calls[0][2] == [0.0] * n)
    S.prove("front-kept", front == cands)


class _Sortable:
    """a list of any number of candidates; what it holds after being sorted is given by its trusted contract"""

    def __init__(self, S, n, w):
        self.S, self.n, self.w, self.sorts, self.sorted = S, n, w, 0, False

    def member(self, k):
        return type("M", (), {"_meta": {"crowding_distance": self.w[k]}, "k": k})()

    def check(self, key, reverse):
        t = self.S.int(f"any{len(self.S.c.inputs)}", 0)
        self.S.assume(t < self.n)
        self.S.prove("by-decreasing-distance", self.S.lor(self.S.land(reverse, key(self.member(t)) == self.w[t]), self.S.land(not reverse, key(self.member(t)) == -self.w[t])))

    def sort(self, key=None, reverse=False):
        self.check(key, reverse)
        self.sorts += 1
        self.sorted = True


@contract("C15", [N + "CrowdingDistance.sort"], trials=150)
def crowding_sort(S):
    """any number of candidates: a stable sort by decreasing distance; in place as well when asked, and only then"""
    n = S.size("n", 0, 7)
    inplace = S.choose("in_place", [True, False])
    if S.symbolic:
        S.assume(n >= 1)
        lst = _Sortable(S, n, S.arr("w", n))
        out = []

        def order(x, key=None, reverse=False):
            S.prove("sorts-the-list", x is lst)
            lst.check(key, reverse)
            out.append(object())
            return out[-1]

        S.patch(nsga2, "sorted", order)  # (trusted, as list.sort: a permutation ordered by the key, stable)
        r = nsga2.CrowdingDistance().sort(lst, in_place=inplace)
        S.prove("in-place", lst.sorted == inplace)
        S.prove("sorted", (r is lst and inplace) or (len(out) > 0 and r is out[-1]))
        return
    cands = [_C(f"c{i}") for i in range(n)]
    for i, c in enumerate(cands):
        c._meta["crowding_distance"] = S.real(f"w{i}", 0, 3)
    lst = list(cands)
    out = nsga2.CrowdingDistance().sort(lst, in_place=inplace)
    S.prove("permutation", sorted(c.uid for c in out) == [c.uid for c in cands])
    S.prove("decreasing", S.land(*[a._meta["crowding_distance"] >= b._meta["crowding_distance"] for a, b in zip(out, out[1:])]) if n > 1 else True)
    S.prove("in-place", (lst == out) if inplace else lst == cands)


def _rank_case(S, sizes, dist, sel):
    """contract of rank given the fronts and the distances"""


class _Ranked:
    """what has been selected so far: each member of each front at most once, front after front, in the order of the front, with ranks which do not decrease"""

    def __init__(self, S):
        self.S, self.count, self.rank, self.cur, self.pos, self.whole = S, 0, -1, -1, 0, 0

    def _ngvc_len(self):
        return self.count

    def __setitem__(self, uid, v):
        S = self.S
        k, j, fr = uid
        rank, front, dist = v
        first = self.cur < k
        S.prove("front-of-the-candidate", front == k)
        S.prove("each-once-in-order", S.lor(S.land(first, j == 0), S.land(k == self.cur, j == self.pos)))
        S.prove("ranks-by-front", S.implies(first, lambda: rank > self.rank))
        if isinstance(dist, float) and dist == float("inf"):
            S.prove("whole-front-same-rank", S.implies(S.lnot(first), lambda: rank == self.rank))
        else:
            S.prove("least-crowded-first", fr.computed and fr.sorted)
            S.prove("ranks-by-distance", S.implies(S.lnot(first), lambda: rank > self.rank))
            S.prove("distance-given", dist == fr.dist(j))
        self.cur, self.pos, self.rank, self.count = k, j + 1, rank, self.count + 1


class _RankedFront:
    """the k-th front: any number of candidates"""

    def __init__(self, S, k):
        self.S, self.k, self.computed, self.sorted = S, k, False, False

    def _ngvc_len(self):
        return self.S.size_of(self.k)

    def dist(self, j):
        return self.S.dist_of(self.k, j)

    def member(self, j):
        return type("M", (), {"uid": (self.k, j, self), "_meta": {"crowding_distance": self.dist(j)}})()

    def __getitem__(self, j):
        self.S.prove("member-of-the-front", self.S.land(j >= 0, j < self.S.size_of(self.k)))
        return self.member(j)

    def _ngvc_iter(self):
        return self.S.seqof(self.S.size_of(self.k), self.member)


def _rank_inv(S):
    def ghost(st):
        g, m = S.sel, len(S.c.inputs)
        g.count, g.rank, g.cur, g.pos = S.int(f"count{m}", 0), S.int(f"rank{m}", -1), S.int(f"cur{m}", -1), S.int(f"pos{m}", 0)
        return {"selected_pop": g}

    def common(st, want):
        sel = st["selected_pop"]
        return S.land(sel is S.sel or (type(sel) is dict and not sel and not issymbolic(S.sel.count)), S.sel.count == want, S.sel.rank >= -1)

    def issymbolic(x):
        return not isinstance(x, int)

    def outer(st, k):
        g = S.sel
        return S.land(common(st, S.before(k)), st["count"] == S.before(k), st["next_rank"] > g.rank, g.cur < k, S.before(k) <= S.wanted if S.wanted is not None else True)

    def inside(st, c, after):
        g, k = S.sel, st["front_i"]
        return S.land(common(st, S.before(k) + c), S.implies(c == 0, lambda: S.land(g.cur < k, st["next_rank"] > g.rank)),
                      S.implies(c > 0, lambda: S.land(g.cur == k, g.pos == c, after(st))))

    key = N + "rank"
    return {key + "#0": Inv(outer, ghost, name="fronts-so-far"),
            key + "#1": Inv(lambda st, c: inside(st, c, lambda st: st["next_rank"] > S.sel.rank), ghost, name="best-of-the-last-front-so-far"),
            key + "#2": Inv(lambda st, c: inside(st, c, lambda st: st["next_rank"] == S.sel.rank), ghost, name="members-so-far")}


@contract("C15", [N + "rank"], trials=200, invariants=_rank_inv)
def rank_any(S):
    """any number of fronts of any sizes, any number to select: as many as wanted are selected (all of them at most), each once, front after front; a front which is taken as a whole has
    one rank, the last one is taken in the order of its crowding distances, computed and sorted before, and ranks never decrease from a front to the next one"""
    known = S.choose("n_selected_given", [True, False])
    if S.symbolic:
        import z3

        c, core = S.c, S.core
        nf = S.size("fronts", 0, 5)
        S.wanted = S.int("n_selected", 0) if known else None
        size, before, dist = z3.Function("size", z3.IntSort(), z3.IntSort()), z3.Function("before", z3.IntSort(), z3.IntSort()), z3.Function("dist", z3.IntSort(), z3.IntSort(), z3.RealSort())
        S.size_of = lambda k: core.SInt(size(core.toz(k)))
        S.dist_of = lambda k, j: core.SReal(dist(core.toz(k), core.toz(j)))

        def prefix(k):
            z = core.toz(k)
            return core.SInt(before(z))

        S.before = prefix
        a, b = z3.Ints("pa pb")
        c.axiom("sizes", z3.ForAll([a], size(a) >= 1, patterns=[size(a)]))
        c.axiom("prefix", z3.And(before(0) == 0, z3.ForAll([a], z3.Implies(a >= 0, before(a + 1) == before(a) + size(a)), patterns=[size(a)]),
                                 z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b), z3.And(before(a) >= 0, before(a) <= before(b))), patterns=[z3.MultiPattern(before(a), before(b))])))
        c.trusted.add("prefix sums of positive sizes do not decrease")
        S.sel = _Ranked(S)
        fronts = S.seqof(nf, lambda k: _RankedFront(S, k))
        pop = object()

        def ranking(self, p, k=None):
            S.prove("whole-population", p is pop and k is None)
            return fronts

        def compute(self, f):
            f.computed = True

        def sort(self, f, in_place=True):
            S.prove("distances-before-sorting", f.computed and in_place)
            f.sorted = True

        S.patch(nsga2.FastNonDominatedRanking, "compute_ranking", ranking)
        S.patch(nsga2.CrowdingDistance, "compute_distance", compute)
        S.patch(nsga2.CrowdingDistance, "sort", sort)
        out = nsga2.rank(pop, n_selected=S.wanted)
        S.prove("selection", out is S.sel)
        total = S.before(nf)
        S.prove("number", S.sel.count == (total if S.wanted is None else S.ite(total <= S.wanted, total, S.wanted)))
        return
    sizes = [S.int(f"size{q}", 1, 5) for q in range(S.size("fronts", 0, 4))]
    n = sum(sizes)
    fronts, k = [], 0
    for z in sizes:
        fronts.append([_C(f"c{k + i}") for i in range(z)])
        k += z
    r = np.random.RandomState(S.int("seed", 0, 9999))
    cands = [c for f in fronts for c in f]
    dist = {c.uid: float(r.randint(0, 4)) for c in cands}
    sel = S.int("n_selected", 1, 12) if known else None
    S.patch(nsga2.FastNonDominatedRanking, "compute_ranking", lambda self, pop, k=None: [list(f) for f in fronts], both=True)

    def cd(self, front):
        for f in front:
            f._meta["crowding_distance"] = dist[f.uid]

    S.patch(nsga2.CrowdingDistance, "compute_distance", cd, both=True)
    _rank_post(S, nsga2.rank(list(cands), n_selected=sel), fronts, dist, sel, n)


@partial("C15", [N + "rank"], trials=200, bound="at most 3 fronts of at most 3 candidates, any distances")
def rank_of_fronts(S):
    sizes = S.choose("sizes", [[1], [3], [1, 2], [2, 1], [2, 2], [1, 2, 1]])
    n = sum(sizes)
    fronts, k = [], 0
    for s in sizes:
        fronts.append([_C(f"c{k + i}") for i in range(s)])
        k += s
    cands = [c for f in fronts for c in f]
    dist = {c.uid: (S.real("w" + c.uid, 0, 3) if not S.symbolic else S.real("w" + c.uid, 0)) for c in cands}
    sel = S.choose("n_selected", [None] + list(range(1, 6)))
    S.patch(nsga2.FastNonDominatedRanking, "compute_ranking", lambda self, pop, k=None: [list(f) for f in fronts], both=True)

    def cd(self, front):
        for f in front:
            f._meta["crowding_distance"] = dist[f.uid]

    S.patch(nsga2.CrowdingDistance, "compute_distance", cd, both=True)
    out = nsga2.rank(list(cands), n_selected=sel)
    _rank_post(S, out, fronts, dist, sel, n)


def _rank_post(S, out, fronts, dist, sel, n):
    m = n if sel is None else min(n, sel)
    S.prove("count", len(out) == m)
    level = {c.uid: q for q, f in enumerate(fronts) for c in f}
    S.prove("front", all(out[u][1] == level[u] for u in out))
    for u in out:
        for w in level:
            if w not in out:
                S.prove("better-fronts-first", level[u] <= level[w])
                S.prove("less-crowded-first", S.implies(level[u] == level[w], lambda: dist[u] >= dist[w]))
            elif level[u] < level[w]:
                S.prove("rank-by-front", out[u][0] < out[w][0])
    full = [q for q, f in enumerate(fronts) if all(c.uid in out for c in f)]
    for q, f in enumerate(fronts):
        sub = [c.uid for c in f if c.uid in out]
        part = sel is None or q not in full
        for a in sub:
            for b in sub:
                if part and a != b:
                    S.prove("distinct-ranks", out[a][0] != out[b][0])
                    if out[a][0] < out[b][0]:
                        S.prove("rank-by-distance", dist[a] >= dist[b])
            if part:
                S.prove("distance-given", S.eq(out[a][2], dist[a]) if not (type(out[a][2]) is float and math.isinf(out[a][2])) else dist[a] == out[a][2])


@bounded("C15", [N + "rank", N + "FastNonDominatedRanking.compute_ranking", N + "CrowdingDistance.compute_distance", N + "FastNonDominatedRanking.compare"], trials=400, conc_s=15,
         bound="populations of at most 25 candidates, 2 to 4 objectives, ties included")
def api_ranking(S):
    r = gen.rs(S)
    n, d = int(r.randint(0, 26)), int(r.randint(2, 5))
    par = p.Array(shape=(2,))
    cands = []
    L = r.randint(0, 4, size=(n, d)).astype(float) if r.rand() < 0.5 else r.normal(size=(n, d))
    for i in range(n):
        c = par.spawn_child()
        c._losses = L[i].copy()
        cands.append(c)
    dom = {(i, j): bool((L[i] <= L[j]).all() and (L[i] < L[j]).any()) for i in range(n) for j in range(n)}
    fr = nsga2.FastNonDominatedRanking()
    fronts = fr.compute_ranking(list(cands))
    _check_fronts(S, fronts, cands, dom)
    if n:
        k = int(r.randint(1, n + 1))
        _check_fronts(S, fr.compute_ranking(list(cands), k=k), cands, dom, k)
    fr.compute_ranking(list(cands))
    pos = {c.uid: i for i, c in enumerate(cands)}
    for f in fronts:
        order = list(f)
        nsga2.CrowdingDistance().compute_distance(f)
        S.prove("front-kept", f == order)
        _crowding_post(S, f, [L[pos[c.uid]].tolist() for c in f], len(f), d)
    dist = {c.uid: c._meta["crowding_distance"] for c in cands}
    sel = None if r.rand() < 0.4 else int(r.randint(1, n + 3))
    out = nsga2.rank(list(cands), n_selected=sel)
    _rank_post(S, out, fronts, dist, sel, n)
    S.prove("losses-kept", all((c.losses == L[i]).all() for i, c in enumerate(cands)))
