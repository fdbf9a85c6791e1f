"""C06: categorical variables: weights are turned into probabilities, only possible options are drawn, options set by
value or index are read back, moves stay in range; discretization of reals to integers and its inverse."""
import warnings
import numpy as np
from ngvc.seq import Inv
from ngvc.harness import contract, bounded
from nevergrad.parametrization import parameter as p
from nevergrad.parametrization import discretization, _layering, _datalayers
from contracts import gen

DI = "nevergrad.parametrization.discretization:"
CH = "nevergrad.parametrization.choice:"
DL = "nevergrad.parametrization._datalayers:"


@contract("C06", [DI + "threshold_discretization"])
def threshold(S):
    n = S.int("n", 1)
    arity = S.int("arity", 2)
    x = S.arr("x", n, -8, 8)
    out = discretization.threshold_discretization(x, arity=arity)
    S.prove("length", S.len(out) == n)
    S.prove("in-range", S.forall(n, lambda i: S.land(S.at(out, i) >= 0, S.at(out, i) <= arity - 1)))
    S.prove("binary-is-sign", S.implies(arity == 2, lambda: S.forall(n, lambda i: S.iff(S.at(out, i) == 1, x[i] > 0))))


@contract("C06", [DI + "threshold_discretization", DI + "inverse_threshold_discretization"])
def threshold_inverse(S):
    n = S.int("n", 1)
    arity = S.size("arity", 2, 1000)
    idx = S.intarr("idx", n, 0, 1000)
    S.assume(S.forall(n, lambda i: idx[i] < arity))
    x = discretization.inverse_threshold_discretization(idx, arity=arity)
    out = discretization.threshold_discretization(x, arity=arity)
    S.prove("back-to-index", S.forall(n, lambda i: S.at(out, i) == idx[i]))


def _at(S, a, i, j):
    return a.at(i, j) if S.symbolic else a[i, j]


def _weights(S, n, k):
    if S.symbolic:
        f = S.arr_.SArr((n, k), lambda i, j, f=S.c.fresh_fn("w", S.arr_.I, S.arr_.I, S.arr_.R): f(i, j))
        return f
    return np.array(S.arr("w", n * k, -30, 30)).reshape(n, k)


@contract("C06", [DI + "Encoder.__init__", DI + "Encoder.probabilities"], trials=150)
def probabilities(S):
    """any number of lines and of options, finite weights"""
    n, k = S.int("n", 1), S.int("k", 1)
    w = _weights(S, n, k)
    enc = discretization.Encoder(w, rng=S.rng_stub())
    pr = enc.probabilities()
    S.prove("shape", S.land(pr.shape[0] == n, pr.shape[1] == k))
    S.prove("nonneg", S.forall(n, lambda i: S.forall(k, lambda j: _at(S, pr, i, j) > 0)))
    S.prove("at-most-1", S.forall(n, lambda i: S.forall(k, lambda j: S.le(_at(S, pr, i, j), 1))))
    S.prove("order", S.forall(n, lambda i: S.forall(k, lambda j: S.forall(k, lambda m: S.implies(S.eq(_at(S, w, i, j), _at(S, w, i, m), tol=0), lambda: S.eq(_at(S, pr, i, j), _at(S, pr, i, m)))))))


@contract("C06", [DI + "Encoder.__init__", DI + "Encoder.probabilities"], trials=150)
def probabilities_sum(S):
    n, k = S.int("n", 1), S.choose("k", [1, 2, 3, 4, 5])
    w = _weights(S, n, k)
    pr = discretization.Encoder(w, rng=S.rng_stub()).probabilities()
    tot = pr.sum(axis=1)
    S.prove("sums-to-1", S.forall(n, lambda i: S.eq(tot[i], 1)))


@contract("C06", [DI + "Encoder.encode"], trials=150)
def encode_deterministic(S):
    n, k = S.int("n", 1), S.int("k", 1)
    w = _weights(S, n, k)
    ind = discretization.Encoder(w, rng=S.rng_stub()).encode(deterministic=True)
    S.prove("length", S.len(ind) == n)
    S.prove("in-range", S.forall(n, lambda i: S.land(ind[i] >= 0, ind[i] < k)))
    S.prove("first-best", S.forall(n, lambda i: S.forall(k, lambda j: S.land(_at(S, w, i, ind[i]) >= _at(S, w, i, j), S.implies(j < ind[i], lambda: _at(S, w, i, j) < _at(S, w, i, ind[i]))))))


@contract("C06", [DI + "Encoder.encode", DI + "Encoder.probabilities"], trials=150)
def encode_sampled(S):
    n, k = S.int("n", 1), S.int("k", 1)
    w = _weights(S, n, k)
    ind = discretization.Encoder(w, rng=S.rng_stub()).encode()
    S.prove("length", S.len(ind) == n)
    S.prove("in-range", S.forall(n, lambda i: S.land(ind[i] >= 0, ind[i] < k)))


class _Rec:
    """records what was drawn"""

    def __init__(self, rng):
        self._r = rng
        self.got = []

    def rand(self, *shape):
        self.got.append(self._r.rand(*shape))
        return self.got[-1]

    def __getattr__(self, n):
        return getattr(self.__dict__["_r"], n)


@contract("C06", [DI + "Encoder.encode"], trials=150)
def encode_inverts_cumulative(S):
    """with the contract of probabilities (nonnegative, each line sums to 1): the drawn option is the one whose slice
    of the cumulated probabilities contains the uniform draw"""
    n, k = S.int("n", 1), S.int("k", 1)
    w = _weights(S, n, k)
    rng = _Rec(S.rng_stub())
    enc = discretization.Encoder(w, rng=rng)
    if S.symbolic:
        P = S.arr_.SArr((n, k), lambda i, j, f=S.c.fresh_fn("p", S.arr_.I, S.arr_.I, S.arr_.R): f(i, j))
        S.assume(S.forall(n, lambda i: S.forall(k, lambda j: P.at(i, j) >= 0)))
        tot = P.sum(axis=1) if S.sq.isconc(k) is None else None
        S.assume(S.forall(n, lambda i: S.eq(tot[i], 1)))
        S.patch(enc, "probabilities", lambda: P)
    ind = enc.encode()
    if not S.symbolic:
        P = enc.probabilities()
    cum = S.arr_.np_cumsum(P, axis=1) if S.symbolic else np.cumsum(P, axis=1)
    r = rng.got[0]
    S.prove("one-draw-per-line", len(rng.got) == 1 and S.len(r) == n)
    S.prove("upper", S.forall(n, lambda i: S.le(_at(S, r, i, 0), _at(S, cum, i, ind[i]))))
    S.prove("lower", S.forall(n, lambda i: S.implies(ind[i] > 0, lambda: S.le(_at(S, cum, i, ind[i] - 1), _at(S, r, i, 0)))))


class _Store:
    """stand-in for the deeper layers: keeps what is set"""

    def __init__(self):
        self.v = None


@contract("C06", [DL + "SoftmaxSampling._layered_set_value", DL + "SoftmaxSampling._layered_get_value", DI + "weight_for_reset"], trials=100)
def softmax_set_then_read(S):
    """reading gives back the indices which were set, and (deterministic) they remain the most likely ones"""
    n, k = S.int("n", 1), S.int("k", 2)
    det = S.choose("deterministic", [True, False])
    a = p.Array(shape=(2, 2))
    lay = _datalayers.SoftmaxSampling(k, deterministic=det)
    store = _Store()

    class Root(_layering.Layered):
        random_state = S.rng_stub()
        _LAYER_LEVEL = _layering.Level.ROOT

        def _layered_get_value(self):
            return store.v

        def _layered_set_value(self, v):
            store.v = v

    root = Root()
    root._layers = [root, lay]
    lay._layers, lay._layer_index = root._layers, 1
    idx = S.intarr("idx", n, 0, 1000)
    S.assume(S.forall(n, lambda i: idx[i] < k))
    lay._layered_set_value(idx)
    out = lay._layered_get_value()
    S.prove("read-back", S.forall(n, lambda i: out[i] == idx[i]))
    S.prove("weights-shape", S.land(store.v.shape[0] == n, store.v.shape[1] == k))
    S.prove("weights-favor", S.forall(n, lambda i: S.forall(k, lambda j: S.implies(j != idx[i], lambda: _at(S, store.v, i, j) < _at(S, store.v, i, idx[i])))))
    if det:
        lay._layered_del_value()
        out2 = lay._layered_get_value()
        S.prove("most-likely", S.forall(n, lambda i: out2[i] == idx[i]))


@contract("C06", [CH + "TransitionChoice.mutate", CH + "BaseChoice.__len__"], trials=100)
def transition_moves(S):
    """after a mutation, indices stay in range and move by less than the number of transitions"""
    rep, k = S.size("rep", 1, 12), S.size("k", 2, 12)
    nt = S.choose("nt", [1, 2, 3])
    idx = S.intarr("idx", rep, 0, 1000)
    S.assume(S.forall(rep, lambda i: idx[i] < k))
    rng = S.rng_stub()
    t = p.TransitionChoice(range(3), transitions=(1.0,) * nt, repetitions=2)
    if not S.symbolic:
        t = p.TransitionChoice(range(k), transitions=(1.0,) * nt, repetitions=rep)
        t.indices.value = idx
        t.random_state = rng
        t.mutate()
        new = t.indices.value
    else:
        got = {}

        class Ind:
            # the loop mutating the selected options reads the indices again after they are set: it is given none
            # (that part is covered by the bounded contract api_parametrized_options)
            new = None
            value = property(lambda s: idx if s.new is None else (), lambda s, v: setattr(s, "new", v))

        class Sub:
            def mutate(self):
                pass

        class Tr:
            value = S.arr("tr", nt, 1e-3, 1e3)

            def mutate(self):
                pass

        ind, tr = Ind(), Tr()
        S.patch(p.core.Parameter if hasattr(p, "core") else p.Parameter, "random_state", property(lambda s: rng))
        t._repetitions = rep
        t._content = {"indices": ind, "transitions": tr, "choices": None}
        S.patch(type(t), "__len__", lambda s: k)
        S.patch(type(t), "choices", property(lambda s: _All(Sub())))
        import nevergrad.parametrization.core as core
        S.patch(core, "as_parameter", lambda x: x)
        t.mutate()
        new = ind.new
    S.prove("in-range", S.forall(rep, lambda i: S.land(new[i] >= 0, new[i] < k)))
    S.prove("short-moves", S.forall(rep, lambda i: S.land(new[i] - idx[i] <= nt - 1, idx[i] - new[i] <= nt - 1)))


class _All:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, i):
        return self.x


class _Option:
    """the j-th option: has a value and takes the values for which accept(j, v)"""

    def __init__(self, g, j):
        self.__dict__.update(g=g, j=j)

    @property
    def value(self):
        return self.g.val(self.j)

    @value.setter
    def value(self, v):
        if not self.g.accept(self.j, v):
            raise ValueError("refused")

    def mutate(self):
        g = self.g
        g.S.prove("selected-option-mutates", g.S.land(g.mutated < g.n, self.j == g.idx[g.mutated]))
        g.mutated = g.mutated + 1


class _Options:
    """any number of options"""

    name = "choices"

    def __init__(self, S, k):
        import z3
        from ngvc.core import SBool, toz, wrapz
        from ngvc.seq import SSeq

        self.S, self.k, self.mutated, self.SSeq = S, k, 0, SSeq
        acc, val = z3.Function("accept", z3.IntSort(), z3.IntSort(), z3.BoolSort()), z3.Function("option_value", z3.IntSort(), z3.IntSort())
        self.accept = lambda j, v: SBool(acc(toz(j), toz(v)))
        self.val = lambda j: wrapz(val(toz(j)))

    def __getitem__(self, j):
        self.S.prove("index-of-an-option", self.S.land(j >= 0, j < self.k))
        return _Option(self, j)

    def _ngvc_iter(self):
        return self.SSeq(self.k, lambda j: _Option(self, j), list)

    __iter__ = None

    def _ngvc_len(self):
        return self.k

    __len__ = _ngvc_len


class _Indices:
    """the array of selected indices"""

    name = "indices"

    def __init__(self, v):
        self.v, self.set, self.log = v, [], []

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, v):
        self.set.append(v)
        self.v = v

    def mutate(self):
        self.log.append("mutate")


def _choice_of(S, n, k, single):
    """a choice with any options: ghost state, indices and the choice"""
    import nevergrad.parametrization.core as core

    g = _Options(S, k)
    g.n, g.idx = n, S.intarr("idx", n, 0, 1000)
    S.assume(S.forall(n, lambda i: S.land(g.idx[i] >= 0, g.idx[i] < k)))
    ind = _Indices(g.idx)
    ch = p.Choice(range(2), repetitions=None if single else 2)
    ch._repetitions = None if single else n
    ch._content = {"indices": ind, "choices": g}
    S.patch(core, "as_parameter", lambda x: x)
    S.patch(core.Parameter, "random_state", property(lambda s: None))
    return g, ind, ch


def _set_inv(S):
    def first(st, i):
        """nothing before the index found accepts the value"""
        v, x = S.g.values[i], st["indices"][i]
        return S.land(x >= 0, x < S.g.k, S.g.accept(x, v), S.forall(S.g.k, lambda j: S.implies(j < x, lambda: S.lnot(S.g.accept(j, v)))))

    def havoc(st):
        return {"indices": S.intarr(f"hind{len(S.c.inputs)}", S.g.n, None, None)}

    def outer(st, i):
        return S.forall(S.g.n, lambda t: S.ite(t < i, first(st, t), st["indices"][t] == -1))

    def inner(st, j):
        return S.land(st["indices"][st["i"]] == -1, S.forall(S.g.k, lambda t: S.implies(t < j, lambda: S.lnot(S.g.accept(t, st["val"])))))

    key = CH + "BaseChoice._layered_set_value"
    return {key + "#0": Inv(outer, havoc, name="values-placed"), key + "#1": Inv(inner, name="options-tried")}


@contract("C06", [CH + "BaseChoice._layered_set_value"], trials=300, invariants=_set_inv)
def set_selects_an_option(S):
    """any options, any number of values: setting a value selects, for each of the values given, the first option which takes it; it is refused, and nothing is
    selected, exactly when some value is taken by no option; a frozen choice is not changed"""
    single = S.choose("single", [True, False])
    n = 1 if single else S.size("n", 1, 4)
    k = S.size("k", 1, 5)
    frozen = S.choose("frozen", [False, False, True])
    if S.symbolic:
        g, ind, ch = _choice_of(S, n, k, single)
        S.g = g
        values = g.values = S.ints("values", n, None, None)
        accept = g.accept
        import nevergrad.parametrization.choice as choice

        S.patch(choice.np, "ones", S.arr_.np_ones)  # (an array of one index can hold an unknown index)
    else:
        consts = [S.choose(f"option{j}", [0, 1, 2, 3, "a"]) for j in range(k)]
        cls = S.choose("cls", [p.Choice, p.TransitionChoice])
        ch = cls(consts, repetitions=None if single else n)
        ch.random_state = np.random.RandomState(0)
        values = [S.choose(f"value{i}", consts if consts else [0]) if S.choose(f"known{i}", [True, True, True, False]) else S.choose(f"other{i}", [0, 1, 7]) for i in range(n)]
        accept = lambda j, v: consts[j] == v
        g, ind = None, None
    ch._frozen = frozen
    before = None if S.symbolic else np.array(ch.indices.value)
    try:
        ch._layered_set_value(values[0] if single else values)
    except ValueError:
        S.prove("refused-only-without-option", S.lnot(S.forall(n, lambda i: S.exists(k, lambda j: accept(j, values[i])))))
        S.prove("nothing-selected", ind.set == [] if S.symbolic else np.array_equal(ch.indices.value, before))
        S.prove("not-frozen", not frozen)
        return
    except RuntimeError:
        S.prove("frozen", frozen)
        S.prove("frozen-is-kept", ind.set == [] if S.symbolic else np.array_equal(ch.indices.value, before))
        return
    S.prove("not-frozen", not frozen)
    if S.symbolic:
        S.prove("set-once", len(ind.set) == 1)
    new = ch.indices.value
    S.prove("as-many", S.len(new) == n)
    S.prove("valid-option", S.forall(n, lambda i: S.land(new[i] >= 0, new[i] < k, accept(new[i], values[i]))))
    S.prove("first-option", S.forall(n, lambda i: S.forall(k, lambda j: S.implies(j < new[i], lambda: S.lnot(accept(j, values[i]))))))


def _mutate_inv(S):
    def havoc(st):
        S.g.mutated = S.int(f"hmut{len(S.c.inputs)}", 0)
        return {}

    return {CH + "Choice.mutate#0": Inv(lambda st, k: S.g.mutated == k, havoc, name="options-mutated")}


@contract("C06", [CH + "BaseChoice._layered_get_value", CH + "BaseChoice.index", CH + "BaseChoice.indices", CH + "BaseChoice.choices", CH + "Choice.mutate", CH + "BaseChoice.__len__"],
          trials=200, invariants=_mutate_inv)
def reads_selected_options(S):
    """any options, any indices: the value is the one of the selected option, or the tuple of them; a mutation mutates the weights once and then exactly the selected options"""
    single = S.choose("single", [True, False])
    n = 1 if single else S.size("n", 1, 4)
    k = S.size("k", 1, 5)
    if S.symbolic:
        g, ind, ch = _choice_of(S, n, k, single)
        S.g = g
        idx, val = g.idx, g.val
    else:
        consts = [S.choose(f"option{j}", [0, 1, 2, 3, "a"]) for j in range(k)]
        ch = S.choose("cls", [p.Choice, p.TransitionChoice])(consts, repetitions=None if single else n)
        ch.random_state = np.random.RandomState(0)
        idx = np.array([S.int(f"idx{i}", 0, 50) % k for i in range(n)])
        ch.indices.value = idx
        val = lambda j: consts[j]
    out = ch._layered_get_value()
    if single:
        S.prove("value", S.land(out == val(idx[0])))
        S.prove("index", ch.index == idx[0])
    else:
        S.prove("values", S.land(S.len(out) == n, S.forall(n, lambda i: out[i] == val(idx[i]))))
    S.prove("number-of-options", ch.__len__() == k)
    if S.symbolic:
        ch.mutate()
        S.prove("weights-mutated-once", ind.log == ["mutate"] and ind.set == [])
        S.prove("each-selected-option", g.mutated == n)


@contract("C06", [CH + "TransitionChoice._internal_set_standardized_data", CH + "TransitionChoice._internal_get_standardized_data"], trials=100)
def transition_reference(S):
    """standardized data of a transition choice are relative to its own reference when it is unordered, to the given one otherwise, and the value read afterwards is the selected option"""
    unordered = S.choose("unordered", [False, True])
    if S.symbolic:
        import nevergrad.parametrization.choice as choice

        log = []
        data = S.arr("data", S.size("n", 1, 4))
        ch = p.TransitionChoice(range(3))
        own, other = object(), object()
        ch._ref = own if unordered else None
        S.patch(choice.BaseChoice, "_internal_set_standardized_data", lambda self, d, r: log.append(("set", self, d, r)))
        S.patch(choice.BaseChoice, "_internal_get_standardized_data", lambda self, r: log.append(("get", self, r)) or "data")
        S.patch(choice.BaseChoice, "_layered_get_value", lambda self: log.append(("value", self)) or "selected")
        S.patch(choice.BaseChoice, "_layered_set_value", lambda self, v: log.append(("select", self, v)))
        ref = own if unordered else other
        S.prove("read", ch._internal_get_standardized_data(other) == "data" and len(log) == 1 and log[0][0] == "get" and log[0][1] is ch and log[0][2] is ref)
        del log[:]
        ch._internal_set_standardized_data(data, other)
        S.prove("set-first", len(log) >= 1 and log[0][0] == "set" and log[0][1] is ch and log[0][2] is data and log[0][3] is ref)
        S.prove("selected-again", all(e[1] is ch for e in log) and all(e[2] == "selected" for e in log if e[0] == "select") and not any(e[0] == "set" for e in log[1:]))
        return
    k = S.size("k", 1, 5)
    ch = p.TransitionChoice(range(k), ordered=not unordered, repetitions=S.size("rep", 1, 3))
    ch.random_state = np.random.RandomState(S.int("seed", 0, 999))
    ref = ch.sample()
    x = np.round(np.random.RandomState(S.int("seed2", 0, 999)).normal(size=ch.dimension), 2)
    c1 = ch.spawn_child()
    c1.set_standardized_data(x, reference=ref)
    z = c1.get_standardized_data(reference=ref)
    c2 = ch.spawn_child()
    c2.set_standardized_data(z, reference=ref)
    S.prove("same-options", c1.value == c2.value and all(0 <= v < k for v in c1.value))
    if unordered:
        c3 = ch.spawn_child()
        c3.set_standardized_data(x, reference=ch)
        S.prove("own-reference", c3.value == c1.value)


# ------------------------------------------------------------------------------------------------ bounded
@bounded("C06", [CH + "Choice.__init__", CH + "BaseChoice._layered_set_value", CH + "BaseChoice._layered_get_value", CH + "Choice.mutate", CH + "TransitionChoice.mutate",
                 CH + "TransitionChoice._internal_set_standardized_data", CH + "BaseChoice.get_value_hash"], trials=400, conc_s=15,
         bound="<= 6 options (constants, scalars, nested choices), <= 4 repetitions, <= 6 operations")
def api_choice(S):
    r = gen.rs(S)
    k = int(r.randint(1, 7))
    rep = None if r.rand() < 0.5 else int(r.randint(1, 5))
    consts = [[f"o{i}" for i in range(k)], list(range(k)), [(i, "x") for i in range(k)], [float(i) / 3 for i in range(k)]][r.randint(4)]
    kind = r.randint(4)
    if kind == 0:
        ch = p.Choice(consts, repetitions=rep)
    elif kind == 1:
        ch = p.Choice(consts, repetitions=rep, deterministic=True)
    else:
        ch = p.TransitionChoice(consts, repetitions=rep, transitions=[(1.0, 1.0), (1.0, 2.0, 0.5), (1.0,)][r.randint(3)], ordered=kind == 2)
    ch.random_state.seed(int(r.randint(2**31)))
    S.prove("length", len(ch) == k)
    n = 1 if rep is None else rep

    def check(tag):
        ind = np.array(ch.indices.value)
        S.prove("indices-in-range", ind.shape == (n,) and bool(np.all(ind >= 0)) and bool(np.all(ind < k)) and np.issubdtype(ind.dtype, np.integer), tag=tag, ind=ind)
        want = consts[int(ind[0])] if rep is None else tuple(consts[int(i)] for i in ind)
        S.prove("value-is-option", ch.value == want and type(ch.value) == type(want), tag=tag, value=ch.value, want=want)
        S.prove("stable-read", np.array_equal(ch.indices.value, ind))
        h = ch.get_value_hash()
        S.prove("hash-is-indices", h == (int(ind[0]) if n == 1 else tuple(int(i) for i in ind)), tag=tag)
        if rep is None:
            S.prove("index", ch.index == int(ind[0]))
        return ind

    check("init")
    for _ in range(6):
        op = r.randint(5)
        if op == 0:
            tgt = r.randint(k, size=n)
            ch.value = consts[tgt[0]] if rep is None else [consts[i] for i in tgt]
            S.prove("set-then-read", np.array_equal(check("set"), tgt), tgt=tgt)
        elif op == 1:
            old = check("before")
            ch.mutate()
            new = check("mutate")
            if kind == 2:
                S.prove("moves-short", bool(np.all(abs(new - old) <= ch.transitions.value.size - 1)))
        elif op == 2:
            ch.set_standardized_data(r.normal(size=ch.dimension) * float(10 ** r.uniform(-2, 5)))
            check("data")
        elif op == 3:
            tgt = r.randint(k, size=n)
            ch.indices.value = tgt
            S.prove("set-index-then-read", np.array_equal(check("index"), tgt))
        else:
            ch = ch.spawn_child() if r.rand() < 0.5 else ch.sample()
            check("child")
    try:
        ch.value = "not an option" if rep is None else ["not an option"] * n
        S.fail("unknown-option-rejected")
    except ValueError:
        check("rejected")
    try:
        (p.Choice if kind < 2 else p.TransitionChoice)([])
        S.fail("empty-rejected")
    except ValueError:
        pass


@bounded("C06", [CH + "Choice.mutate", CH + "BaseChoice._layered_set_value"], trials=250, conc_s=12, bound="<= 4 parametrized options")
def api_parametrized_options(S):
    """options which are themselves parameters"""
    r = gen.rs(S)
    opts = [p.Scalar(lower=10 * i, upper=10 * i + 5) for i in range(int(r.randint(2, 5)))] + ["txt"]
    cls = p.Choice if r.rand() < 0.5 else p.TransitionChoice
    ch = cls(opts)
    ch.random_state.seed(int(r.randint(2**31)))
    for _ in range(5):
        vals = [o.value for o in list(ch.choices)[:-1]] + ["txt"]
        S.prove("value", ch.value == vals[ch.index])
        before = [getattr(c, "value", c) for c in ch.choices]
        if r.rand() < 0.5:
            ch.mutate()
            after = [getattr(c, "value", c) for c in ch.choices]
            S.prove("only-selected-mutates", all(a == b or i == ch.index for i, (a, b) in enumerate(zip(before, after))), before=before, after=after, index=ch.index)
        else:
            i = int(r.randint(len(opts)))
            v = "txt" if i == len(opts) - 1 else float(10 * i + r.uniform(0.1, 4.9))
            ch.value = v
            S.prove("routed", ch.index == i and (ch.value == v or abs(ch.value - v) < 1e-6))


@bounded("C06", [DI + "Encoder.probabilities", DI + "Encoder.encode", DI + "threshold_discretization", DI + "noisy_inverse_threshold_discretization"], trials=300, conc_s=10,
         bound="<= 4 x 6 weights including nan and infinities; arity <= 60")
def special_weights(S):
    r = gen.rs(S)
    n, k = int(r.randint(1, 5)), int(r.randint(1, 7))
    w = r.normal(size=(n, k)) * float(10 ** r.uniform(-1, 3))
    for v in (np.nan, np.inf, -np.inf):
        if r.rand() < 0.5:
            w[r.rand(n, k) < r.choice([0.2, 0.6, 1.0])] = v
    w0 = w.copy()
    enc = discretization.Encoder(w, rng=r)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pr = enc.probabilities()
    S.prove("weights-untouched", np.array_equal(w, w0, equal_nan=True))
    S.prove("distribution", bool(np.all(np.isfinite(pr))) and bool(np.all(pr >= 0)) and np.allclose(pr.sum(axis=1), 1), w=w, pr=pr)
    for i in range(n):
        x = np.where(np.isnan(w[i]), -np.inf, w[i])
        if np.any(x == np.inf):
            want = (x == np.inf) / np.sum(x == np.inf)
        elif np.all(x == -np.inf):
            want = np.ones(k) / k
        else:
            e = np.exp(x - x.max())
            want = e / e.sum()
        S.prove("softmax", np.allclose(pr[i], want, atol=1e-9), row=w[i], got=pr[i], want=want)
        det = enc.encode(deterministic=True)
        S.prove("deterministic-first-best", det[i] == int(np.argmax(x)))
    for _ in range(3):
        ind = enc.encode()
        S.prove("possible", all(pr[i, ind[i]] > 0 for i in range(n)), w=w, ind=ind)
    ar = int(r.randint(2, 60))
    idx = r.randint(ar, size=5)
    for inv in (discretization.inverse_threshold_discretization(list(idx), ar), discretization.noisy_inverse_threshold_discretization(list(idx), ar, r)):
        S.prove("inverse-discretization", discretization.threshold_discretization(inv, ar) == idx.tolist(), idx=idx, arity=ar)
    y = np.array([np.nan, -np.inf, np.inf] + list(r.normal(size=3) * 5))
    z = list(y)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = discretization.threshold_discretization(z, ar)
    S.prove("special-discretization", out[0] == 0 and out[1] == 0 and out[2] == ar - 1 and all(isinstance(o, int) and 0 <= o < ar for o in out))
    order = np.argsort(y[3:])
    S.prove("monotone", all(out[3 + a] <= out[3 + b] for a, b in zip(order, order[1:])))


@bounded("C06", [DI + "Encoder.encode", CH + "TransitionChoice.mutate", DL + "SoftmaxSampling._layered_get_value"], trials=12, conc_s=12, bound="4000 draws per configuration, tolerance 6 standard deviations")
def frequencies(S):
    r = gen.rs(S)
    k = int(r.randint(2, 5))
    w = r.normal(size=k)
    N = 4000
    pr = np.exp(w) / np.exp(w).sum()
    c = np.bincount(discretization.Encoder(np.ones((N, 1)) * w, rng=r).encode(), minlength=k) / N
    S.prove("softmax-frequencies", bool(np.all(abs(c - pr) < 6 * np.sqrt(pr * (1 - pr) / N) + 1e-9)), got=c, want=pr)
    ch = p.Choice(list(range(k)), repetitions=N)
    ch.random_state.seed(int(r.randint(2**31)))
    c = np.bincount(np.array(ch.value), minlength=k) / N
    S.prove("initially-uniform", bool(np.all(abs(c - 1 / k) < 6 * np.sqrt(1 / k / N))), got=c)
    t = p.TransitionChoice(list(range(9)), repetitions=N, transitions=p.Array(init=np.array([1.0, 1.0])).set_mutation(sigma=1e-9))
    t.random_state.seed(int(r.randint(2**31)))
    t.value = [4] * N
    t.mutate()
    c = np.bincount(np.array(t.value), minlength=9) / N
    S.prove("moves-frequencies", abs(c[4] - 0.5) < 0.06 and abs(c[3] - 0.25) < 0.06 and abs(c[5] - 0.25) < 0.06, got=c)
    u = p.TransitionChoice(list(range(5)), repetitions=N, ordered=False)
    u.random_state.seed(int(r.randint(2**31)))
    u.mutate()
    c = np.bincount(np.array(u.value), minlength=5) / N
    S.prove("unordered-uniform", bool(np.all(abs(c - 0.2) < 0.04)), got=c)
