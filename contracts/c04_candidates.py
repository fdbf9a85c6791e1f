"""C04: candidates are independent: changing one never changes another one, a frozen one cannot change, and
identifiers, generations, parents and lineage follow the way a candidate was made."""
import copy as _copy
import numpy as np
from ngvc.harness import contract, bounded
import nevergrad as ng
from nevergrad.parametrization import _datalayers, parameter as p
from contracts import gen
from contracts.c03_stddata import _array, _norandom

D = "nevergrad.parametrization.data:"
C = "nevergrad.parametrization.container:"
K = "nevergrad.parametrization.core:"
LY = "nevergrad.parametrization._layering:"


@contract("C04", [K + "Parameter.spawn_child", K + "Parameter.copy", K + "Parameter._set_parenthood", D + "Data.copy", LY + "Layered.copy", K + "Parameter.sample", K + "Parameter.freeze"], trials=100)
def genealogy(S):
    n = S.int("n", 1)
    kind = S.choose("kind", ["array", "dict", "tuple"])
    a = _array(S, "init", n)
    root = a if kind == "array" else (p.Dict(x=a) if kind == "dict" else p.Tuple(a, "txt"))
    _norandom(root)
    get = (lambda q: q) if kind == "array" else ((lambda q: q["x"]) if kind == "dict" else (lambda q: q[0]))
    if S.choose("frozen", [False, True]):
        root.freeze()
    root._generation = S.int("gen", 0)
    child = root.spawn_child()
    S.prove("new-uid", child.uid != root.uid and get(child).uid != get(root).uid or kind == "array" and child.uid != root.uid)
    S.prove("generation", child.generation == root.generation + 1)
    S.prove("parents", child.parents_uids == [root.uid])
    S.prove("lineage", child.heritage["lineage"] == root.heritage["lineage"])
    S.prove("sub-parents", get(child).parents_uids == [get(root).uid])
    S.prove("not-frozen", not child._frozen and not get(child)._frozen)
    S.prove("no-loss", child.loss is None and child._losses is None)
    v, w = get(child).value, get(root).value
    S.prove("same-value", S.forall(n, lambda i: S.eq(v[i], w[i])))
    S.prove("same-random-state", child._random_state is root._random_state)
    twin = root.copy()
    for q, m in ((twin, root), (get(twin), get(root))):
        S.prove("copy-parents", q.parents_uids == m.parents_uids and q.parents_uids is not m.parents_uids)
        S.prove("copy-containers", q.heritage == m.heritage and q.heritage is not m.heritage and q._meta is not m._meta and q._constraint_checkers is not m._constraint_checkers)
        S.prove("copy-layers", q._layers is not m._layers and all(x is not y for x, y in zip(q._layers, m._layers)))
        S.prove("copy-generation", q.generation == m.generation)
        S.prove("copy-new-uid", q.uid != m.uid and not q._frozen and q.loss is None)
    S.prove("own-containers", child.heritage is not root.heritage and child._meta is not root._meta and child._constraint_checkers is not root._constraint_checkers and child._layers is not root._layers)


@contract("C04", [D + "Data._layered_set_value", D + "Data._internal_set_standardized_data", K + "Parameter._check_frozen", LY + "ValueProperty.__set__", LY + "ArrayCasting._layered_set_value"], trials=100)
def frozen_does_not_change(S):
    n = S.int("n", 1)
    kind = S.choose("kind", ["array", "dict", "tuple"])
    a = _array(S, "init", n)
    root = a if kind == "array" else (p.Dict(x=a) if kind == "dict" else p.Tuple(a))
    get = (lambda q: q) if kind == "array" else ((lambda q: q["x"]) if kind == "dict" else (lambda q: q[0]))
    _norandom(root)
    x = S.arr("x", n)
    before = get(root).value
    root.freeze()
    op = S.choose("op", ["value", "data", "subvalue", "recombine", "mutate"])
    other = root.spawn_child()
    rng = S.rng_stub()
    root._set_random_state(rng)
    other._set_random_state(rng)
    raised = False
    try:
        if op == "value":
            root.value = x if kind == "array" else (dict(x=x) if kind == "dict" else (x,))
        elif op == "data":
            root.set_standardized_data(x)
        elif op == "subvalue":
            get(root).value = x
        elif op == "recombine":
            get(other).value = x
            root.recombine(other)
        else:
            root.mutate()
    except RuntimeError:
        raised = True
    S.prove("rejected", raised)
    after = get(root).value
    S.prove("unchanged", S.forall(n, lambda i: S.eq(before[i], after[i])))
    get(other).value = x
    b = get(root).value
    S.prove("child-can-change", S.forall(n, lambda i: S.eq(get(other).value[i], x[i])))
    S.prove("parent-not-changed-by-child", S.forall(n, lambda i: S.eq(before[i], b[i])))


@contract("C04", [C + "Dict._layered_set_value", C + "Tuple._layered_set_value", C + "Dict._layered_get_value", C + "Tuple._layered_get_value", C + "Instrumentation.args",
                  C + "Instrumentation.kwargs", C + "Instrumentation.__init__", C + "Container._sanity_check", C + "Container.__getitem__"], trials=150, also=("C05",))
def container_values(S):
    """the value of a container is made of the values of its elements: setting it sets each of them and nothing else, a value with other keys or another number of
    elements is refused and changes nothing; args and kwargs are the two parts of the value of an Instrumentation; the same parameter cannot be used twice"""
    n, m = S.int("n", 1), S.int("m", 1)
    a, b = _array(S, "init_a", n), _array(S, "init_b", m)
    kind = S.choose("kind", ["dict", "tuple", "instru"])
    root = p.Dict(x=a, y=b, z=12) if kind == "dict" else (p.Tuple(a, 12, b) if kind == "tuple" else p.Instrumentation(a, 12, y=b))
    _norandom(root)
    x, y = S.arr("x", n), S.arr("y", m)
    mk = {"dict": lambda u, v: dict(y=v, z=12, x=u), "tuple": lambda u, v: (u, 12, v), "instru": lambda u, v: ((u, 12), dict(y=v))}[kind]
    parts = {"dict": lambda v: (v["x"], v["z"], v["y"]), "tuple": lambda v: v, "instru": lambda v: (v[0][0], v[0][1], v[1]["y"])}[kind]
    a0, b0 = a.value, b.value
    bad = S.choose("bad", ["no", "missing", "more", "constant", "type"])
    if bad == "no":
        root.value = mk(x, y)
        want = (x, y)
    else:
        want = (a0, b0)
        if bad == "missing":
            val = {"dict": lambda: dict(x=x, z=12), "tuple": lambda: (x, 12), "instru": lambda: ((x,), dict(y=y))}[kind]()
        elif bad == "more":
            val = {"dict": lambda: dict(x=x, y=y, z=12, t=1), "tuple": lambda: (x, 12, y, 1), "instru": lambda: ((x, 12), dict(y=y, t=1))}[kind]()
        elif bad == "constant":
            val = {"dict": lambda: dict(z=13, x=x, y=y), "tuple": lambda: (x, 13, y), "instru": lambda: ((x, 13), dict(y=y))}[kind]()
        else:
            val = {"dict": lambda: (x, 12, y), "tuple": lambda: x, "instru": lambda: dict(a=x, b=y)}[kind]()
        refused = False
        try:
            root.value = val
        except (ValueError, TypeError, KeyError, AssertionError):
            refused = True
        S.prove("refused", refused)
    got = root.value
    u, c, v = parts(got)
    if bad in ("no",):
        S.prove("sets-each", S.land(S.forall(n, lambda i: S.eq(u[i], x[i])), S.forall(m, lambda i: S.eq(v[i], y[i]))))
    elif bad in ("missing", "more") and kind != "instru":
        S.prove("refused-changes-nothing", S.land(S.forall(n, lambda i: S.eq(u[i], a0[i])), S.forall(m, lambda i: S.eq(v[i], b0[i]))))
    S.prove("constant", c == 12)
    va, vb = a.value, b.value
    S.prove("made-of-its-elements", S.land(S.forall(n, lambda i: S.eq(u[i], va[i])), S.forall(m, lambda i: S.eq(v[i], vb[i]))))
    if kind == "dict":
        S.prove("keys", sorted(got) == ["x", "y", "z"] and root["x"] is a and root["y"] is b)
    elif kind == "tuple":
        S.prove("keys", isinstance(got, tuple) and len(got) == 3 and root[0] is a and root[2] is b)
    else:
        args, kwargs = root.args, root.kwargs
        S.prove("keys", isinstance(got, tuple) and len(got) == 2 and len(args) == 2 and list(kwargs) == ["y"])
        S.prove("args-and-kwargs", S.land(args[1] == 12, S.forall(n, lambda i: S.eq(args[0][i], va[i])), S.forall(m, lambda i: S.eq(kwargs["y"][i], vb[i]))))
    twice = {"dict": lambda: p.Dict(x=a, y=a), "tuple": lambda: p.Tuple(a, b, a), "instru": lambda: p.Instrumentation(a, y=a)}[kind]
    try:
        twice()
        S.prove("not-twice", False)
    except ValueError:
        pass


def _write(v, y):
    """what an objective function working in place does with the array it is given (some arrays refuse it)"""
    try:
        v[:] = y
    except (ValueError, TypeError):
        pass


@contract("C04", [LY + "ValueProperty.__get__", LY + "ArrayCasting._layered_set_value", LY + "ArrayCasting._layered_get_value", D + "Data._layered_set_value", D + "Data._layered_get_value",
                  C + "Dict._layered_get_value", C + "Tuple._layered_get_value"], trials=120)
def value_is_not_shared(S):
    """neither the array given as value nor the array read from a frozen parameter gives access to its content"""
    n = S.int("n", 1)
    kind = S.choose("kind", ["array", "dict", "tuple"])
    layer = S.choose("layer", ["none", "bounds", "add", "neg"])
    a = _array(S, "init", n)
    if layer == "bounds":
        a.add_layer(_datalayers.Bound(lower=-1e5, upper=1e5, method="clipping"))
    elif layer == "add":
        a = a + 1.5
    elif layer == "neg":
        a = -a
    root = a if kind == "array" else (p.Dict(x=a) if kind == "dict" else p.Tuple(a))
    get = (lambda q: q) if kind == "array" else ((lambda q: q["x"]) if kind == "dict" else (lambda q: q[0]))
    read = (lambda q: q.value) if kind == "array" else ((lambda q: q.value["x"]) if kind == "dict" else (lambda q: q.value[0]))
    _norandom(root)
    x, y = S.arr("x", n, -1e4, 1e4), S.arr("y", n, -1e4, 1e4)
    given = x.copy()
    get(root).value = given
    _write(given, y)
    v = read(root)
    S.prove("given-array", S.forall(n, lambda i: S.eq(v[i], x[i], tol=1e-9)))
    root.freeze()
    _write(read(root), y)
    w = read(root)
    S.prove("read-array", S.forall(n, lambda i: S.eq(w[i], x[i], tol=1e-9)))
    z = root.spawn_child()
    u = read(z)
    S.prove("children", S.forall(n, lambda i: S.eq(u[i], x[i], tol=1e-9)))


@contract("C04", [D + "Data._layered_recombine", K + "Parameter.recombine", K + "Parameter.mutate", K + "Parameter._layered_mutate"], trials=100)
def siblings(S):
    """mutation and recombination only write on the instance they are called upon; recombination is the mean"""
    n = S.int("n", 1)
    root = _array(S, "init", n)
    _norandom(root)
    x, y = S.arr("x", n, -1e4, 1e4), S.arr("y", n, -1e4, 1e4)
    a, b, c = root.spawn_child(), root.spawn_child(), root.spawn_child()
    a.value = x
    b.value = y
    v0 = root.value
    a.recombine(b)
    va, vb, vr = a.value, b.value, root.value
    S.prove("mean", S.forall(n, lambda i: S.eq(va[i], (x[i] + y[i]) / 2, tol=1e-6)))
    S.prove("other-untouched", S.forall(n, lambda i: S.eq(vb[i], y[i])))
    rng = S.rng_stub()
    c._set_random_state(rng)
    c.mutate()
    vr2, va2 = root.value, a.value
    S.prove("parent-untouched", S.forall(n, lambda i: S.land(S.eq(vr[i], v0[i]), S.eq(vr2[i], v0[i]))))
    S.prove("sibling-untouched", S.forall(n, lambda i: S.eq(va2[i], va[i])))


def _snap(q):
    """observable state of a parameter tree (deep copy)"""
    val = _copy.deepcopy(q.value)
    if isinstance(q, p.Constant):
        return [val]  # constants are shared
    out = [val, q.uid, q.generation, list(q.parents_uids), dict(q.heritage), q.loss, dict(q._meta), q._frozen, len(q._constraint_checkers), q.name]
    try:
        out.append(np.array(q.get_standardized_data(reference=q)).tolist())
    except Exception:
        pass
    if isinstance(q, p.Array) or isinstance(q, p.Scalar):
        out.append(np.array(q._value).tolist())
        sig = q.sigma
        out.append(_copy.deepcopy(sig.value))
    for _, sub in q._subobjects.items():
        out.append(_snap(sub))
    return out


def _same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return gen.eqval(a, b, 0)


@bounded("C04", [K + "Parameter.spawn_child", K + "Parameter.sample", K + "Parameter.recombine", K + "Parameter.mutate"], trials=250, conc_s=15,
         bound="random parametrizations of depth <= 3, histories of at most 8 operations over a growing population")
def api_independence(S):
    r = gen.rs(S)
    pr, _ = gen.tree(r, int(r.randint(0, 4)))
    pr.random_state.seed(int(r.randint(2**31)))
    if r.rand() < 0.3:
        pr.freeze()
    pop = [pr]
    for _ in range(8):
        src = pop[r.randint(len(pop))]
        snaps = [_snap(q) for q in pop]
        op = r.randint(7)
        who = None
        if op == 0:
            new = src.sample()
            S.prove("sample-restarts", new is src or (new.generation == 0 and new.heritage["lineage"] == new.uid and new.parents_uids == []))
            pop.append(new)
        elif op in (1, 2):
            new = src.spawn_child()
            S.prove("child-genealogy", new is src or (new.generation == src.generation + 1 and new.parents_uids == [src.uid] and new.heritage["lineage"] == src.heritage["lineage"]))
            S.prove("child-value", gen.eqval(new.value, src.value) or not _det(src))
            pop.append(new)
        elif op == 3 and not src._frozen:
            src.mutate()
            who = src
        elif op == 4 and not src._frozen:
            src.set_standardized_data(r.normal(size=src.dimension))
            who = src
        elif op == 5 and not src._frozen:
            src.recombine(pop[r.randint(len(pop))])
            who = src
        else:
            new = src.copy()
            S.prove("copy-is-clean", not new._frozen and new.loss is None and new._meta == {} and new.uid != src.uid)
            new._meta["x"] = 1
            new.heritage["y"] = 2
            new.register_cheap_constraint(_always)
            new.parents_uids.append("z")
            scratch = src.spawn_child() if r.rand() < 0.5 else src.copy()
            for q in _all(scratch) if not isinstance(scratch, p.Constant) else []:
                if isinstance(q, p.Constant):
                    continue
                q.parents_uids.append("z")
                q.heritage["y"] = 2
                q._meta["x"] = 1
                v = q.value
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 1  # the copy owns its arrays
            if isinstance(new, (p.Array, p.Scalar)) and new.integer is False:
                new.set_mutation(sigma=1.2345)
            pop.append(new)
        for q, s in zip(pop, snaps):
            if q is not who:
                S.prove("others-untouched", _same(_snap(q), s), op=int(op), before=s, after=_snap(q))
    uids = [q.uid for q in pop if not isinstance(q, p.Constant)]
    S.prove("unique-uids", len(set(uids)) == len(uids))
    for q in pop:
        q.freeze()
        s = _snap(q)
        for name, fn in [("value", lambda: setattr(q, "value", q.value)), ("mutate", q.mutate), ("data", lambda: q.set_standardized_data(np.zeros(q.dimension)))]:
            if q.dimension:
                try:
                    fn()
                    S.prove(f"frozen-rejects-{name}", isinstance(q, p.Constant))
                except RuntimeError:
                    pass
        S.prove("frozen-unchanged", _same(_snap(q), s))


def _scribble(v, r):
    """overwrites all the arrays and containers of a value"""
    if isinstance(v, np.ndarray):
        try:
            v[...] = r.randint(-3, 4, size=v.shape)
        except ValueError:  # read-only
            pass
    elif isinstance(v, dict):
        for x in v.values():
            _scribble(x, r)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            _scribble(x, r)
        if isinstance(v, list):
            v.clear()


@bounded("C04", [LY + "ValueProperty.__get__", LY + "Int._layered_get_value", C + "Instrumentation.args", C + "Instrumentation.kwargs", "nevergrad.optimization.base:Optimizer.minimize",
                 "nevergrad.optimization.base:Optimizer.tell"], trials=200, conc_s=15, bound="random parametrizations of depth <= 3; loops of 30 evaluations")
def api_in_place(S):
    """a function modifying its arguments in place has no influence on the candidates nor on the recommendation"""
    r = gen.rs(S)
    pr, _ = gen.tree(r, int(r.randint(0, 4)))
    if isinstance(pr, p.Constant):
        return
    seed = int(r.randint(2**31))
    pr.random_state.seed(seed)
    other = pr.sample()
    v = other.value
    q = pr.spawn_child(new_value=v)
    s = _snap(q)
    _scribble(v, r)
    S.prove("given-value", _same(_snap(q), s), before=s, after=_snap(q))
    q.freeze()
    s = _snap(q)
    for _ in range(2):
        _scribble(q.value, r)
        if isinstance(q, p.Instrumentation):
            _scribble(q.args, r)
            _scribble(q.kwargs, r)
        for sub in _all(q):
            if not isinstance(sub, p.Constant):
                _scribble(sub.value, r)
        S.prove("frozen-value", _same(_snap(q), s), before=s, after=_snap(q))
    name = ["OnePlusOne", "DE", "PSO", "RandomSearch", "CMA", "NGOpt", "ScrHammersleySearch", "TBPSA"][r.randint(8)]
    runs = []
    for inplace in (False, True):
        a = ng.p.Instrumentation(ng.p.Array(init=np.ones(3)), ng.p.Scalar(lower=-3, upper=3), z=ng.p.Array(init=[1.0, 2.0], lower=-5, upper=5))
        a.random_state.seed(seed)
        opt = ng.optimizers.registry[name](a, budget=30)

        def f(x, y, z):
            out = float(np.sum((x - 0.3) ** 2) + y**2 + np.sum((z - 1) ** 2))
            if inplace:
                _scribble(x, r)
                _scribble(z, r)
            return out

        rec = opt.minimize(f)
        runs.append((rec.value, rec.loss, opt.current_bests["minimum"].parameter.value))
    S.prove("same-run", gen.eqval(runs[0][0], runs[1][0], 0) and runs[0][1] == runs[1][1] and gen.eqval(runs[0][2], runs[1][2], 0), name=name, runs=runs)


def _always(x):
    return True


def _det(q):
    return q.function.deterministic and not any(isinstance(x, p.Choice) for x in _all(q))


def _all(q):
    out = [q]
    for _, s in q._subobjects.items():
        out += _all(s)
    return out
