"""C03: the standardized data of a parametrization represents its value: same size as the dimension, laid out by
component, zero for the reference itself, and writing it back gives the same data and the same value."""
import numpy as np
from ngvc.harness import contract, bounded
from nevergrad.parametrization import parameter as p
from contracts import gen

D = "nevergrad.parametrization.data:"
C = "nevergrad.parametrization.container:"
K = "nevergrad.parametrization.core:"


def _array(S, name, n, sigma=None):
    a = p.Array(init=S.arr(name, n))
    a.random_state = None if S.symbolic else np.random.RandomState(0)
    if S.symbolic:
        _norandom(a)
    if sigma is not None:
        a.set_mutation(sigma=sigma)
    return a


def _norandom(a):
    r = np.random.RandomState(0)
    a._set_random_state(r)


@contract("C03", [D + "Data._internal_set_standardized_data", D + "Data._internal_get_standardized_data", D + "Data._to_reduced_space",
                  K + "Parameter.set_standardized_data", K + "Parameter.get_standardized_data", D + "Data.__init__"])
def array_round_trip(S):
    n = S.int("n", 1)
    sigma = S.real("sigma", 0.01, 100)
    ref = _array(S, "init", n, sigma)
    x = S.arr("x", n, -1e4, 1e4)
    child = ref.spawn_child()
    z0 = child.get_standardized_data(reference=ref)
    S.prove("zero-for-the-reference", S.forall(n, lambda i: z0[i] == 0))
    if S.choose("own_sigma", [False, True]):  # as after mutations, when sigma is mutable
        child.set_mutation(sigma=S.real("sigma2", 0.01, 100))
    child.set_standardized_data(x, reference=ref)
    z = child.get_standardized_data(reference=ref)
    S.prove("size-is-the-dimension", S.land(S.len(z) == n, child.dimension == n))
    S.prove("round-trip", S.forall(n, lambda i: S.eq(z[i], x[i], tol=1e-5)))
    v, r = child.value, ref.value
    S.prove("value-is-centered-and-reduced", S.forall(n, lambda i: S.eq(v[i], r[i] + sigma * x[i], tol=1e-5)))
    other = ref.spawn_child()
    other.set_standardized_data(z, reference=ref)
    w = other.value
    S.prove("same-value", S.forall(n, lambda i: S.eq(w[i], v[i], tol=1e-5)))
    u = ref.value
    S.prove("reference-untouched", S.forall(n, lambda i: S.eq(u[i], r[i])))


@contract("C03", [C + "Container._internal_set_standardized_data", C + "Container._internal_get_standardized_data", C + "Container.dimension",
                  C + "Dict.__iter__", C + "Tuple.__iter__", C + "Container.__init__"], trials=60)
def container_layout(S):
    """the data of a container is the concatenation of the data of its components (sorted keys): disjoint, complete, in place"""
    kind = S.choose("kind", ["dict", "tuple", "nested"])
    ns = [S.int(f"n{k}", 1) for k in range(3)]
    init = [_array(S, f"init{k}", ns[k]) for k in range(3)]
    if kind == "dict":
        ref = p.Dict(b=init[1], a=init[0], c=init[2])
    elif kind == "tuple":
        ref = p.Tuple(*init)
    else:
        ref = p.Dict(a=init[0], b=p.Tuple(init[1], init[2]))
    _norandom(ref)
    total = ns[0] + ns[1] + ns[2]
    x = S.arr("x", total)
    child = ref.spawn_child()
    child.set_standardized_data(x, reference=ref)
    if kind == "nested":
        vals = [child["a"].value, child["b"][0].value, child["b"][1].value]
        refs = [ref["a"].value, ref["b"][0].value, ref["b"][1].value]
    else:
        keys = ["a", "b", "c"] if kind == "dict" else [0, 1, 2]
        vals = [child[k].value for k in keys]
        refs = [ref[k].value for k in keys]
    S.prove("dimension", ref.dimension == total)
    start = 0
    for k in range(3):
        S.prove("component-slice", S.forall(ns[k], lambda i: S.eq(vals[k][i], refs[k][i] + x[start + i], tol=1e-6)))
        start = start + ns[k]
    z = child.get_standardized_data(reference=ref)
    S.prove("size", S.len(z) == total)
    S.prove("round-trip", S.forall(total, lambda i: S.eq(z[i], x[i], tol=1e-6)))


@contract("C03", [C + "Container._internal_set_standardized_data"], trials=40)
def container_wrong_size(S):
    ns = [S.int(f"n{k}", 1, 6) for k in range(2)]
    ref = p.Tuple(_array(S, "i0", ns[0]), _array(S, "i1", ns[1]))
    _norandom(ref)
    m = S.int("m", 0, 20)
    S.assume(m != ns[0] + ns[1])
    x = S.arr("x", m)
    child = ref.spawn_child()
    try:
        child.set_standardized_data(x, reference=ref)
    except ValueError:
        S.prove("wrong-size-rejected", True)
        return
    S.fail("wrong-size-rejected")


@bounded("C03", [K + "Parameter.set_standardized_data", K + "Parameter.get_standardized_data"], trials=400, conc_s=15,
         bound="random parametrizations of depth <= 3, continuous unbounded leaves for the exact round trip, all leaves for sizes and determinism")
def api_round_trip(S):
    r = gen.rs(S)
    cont = ["scalar", "array", "mutated"]
    smooth = cont + ["bscalar", "log", "barray", "layered", "one"]
    pr, _ = gen.tree(r, int(r.randint(0, 4)), [cont, smooth, None][r.randint(3)] or None)
    kinds = "any"
    pr.random_state.seed(int(r.randint(2**31)))
    S.prove("zero-for-the-reference", not np.any(pr.get_standardized_data(reference=pr)))
    d = pr.dimension
    S.prove("size-is-the-dimension", pr.get_standardized_data(reference=pr).shape == (d,))
    data = r.normal(size=d)
    child = pr.spawn_child().set_standardized_data(data, reference=pr)
    z = child.get_standardized_data(reference=pr)
    S.prove("size-is-the-dimension", z.shape == (d,) and bool(np.all(np.isfinite(z))))
    again = pr.spawn_child().set_standardized_data(z, reference=pr)
    S.prove("idempotent", S.eq(again.get_standardized_data(reference=pr), z, tol=1e-6))
    S.prove("default-reference", S.eq(pr.spawn_child().set_standardized_data(z).get_standardized_data(reference=pr), z, tol=1e-6))
    if d > 0:
        for bad in (d + 1, d - 1):
            if bad > 1 or (bad and isinstance(pr, (p.Dict, p.Tuple))):
                try:
                    pr.spawn_child().set_standardized_data(np.zeros(bad))
                    S.fail("wrong-size-rejected")
                except (ValueError, AssertionError):
                    pass


@bounded("C03", [C + "Container._internal_set_standardized_data"], trials=300, conc_s=15, bound="trees of depth <= 3 with continuous leaves")
def api_exact_and_local(S):
    """exact round trip on continuous leaves; each coordinate drives exactly one leaf; leaves follow sorted keys"""
    r = gen.rs(S)
    pr, _ = gen.tree(r, int(r.randint(1, 4)), ["scalar", "array", "mutated", "layered", "msigma"])
    pr.random_state.seed(int(r.randint(2**31)))
    d = pr.dimension
    data = r.normal(size=d) * 0.1
    child = pr.spawn_child()
    if r.rand() < 0.3:
        child.mutate()
    child = child.set_standardized_data(data, reference=pr)
    v = child.value
    z = child.get_standardized_data(reference=pr)
    same = pr.spawn_child().set_standardized_data(z, reference=pr)
    S.prove("same-value", gen.eqval(same.value, v))

    def leaves(param):
        if isinstance(param, p.Constant):
            return []
        if isinstance(param, p.Dict) or isinstance(param, p.Tuple):
            return [x for k in sorted(param._content) for x in leaves(param[k])]
        return [param]

    ref_leaves, new_leaves = leaves(pr), leaves(child)
    S.prove("leaves-cover", sum(x.dimension for x in ref_leaves) == d)
    start = 0
    for a, b in zip(ref_leaves, new_leaves):
        n = a.dimension
        alone = a.spawn_child().set_standardized_data(data[start : start + n], reference=a)
        S.prove("leaf-slice", gen.eqval(alone.value, b.value))
        start += n
    if d:
        k = int(r.randint(d))
        data2 = np.array(data)
        data2[k] += 1.0
        other = leaves(pr.spawn_child().set_standardized_data(data2, reference=pr))
        changed = [not gen.eqval(a.value, b.value) for a, b in zip(other, new_leaves)]
        S.prove("one-coordinate-one-leaf", sum(changed) <= 1)
