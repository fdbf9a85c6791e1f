"""Contracts as parametrised harnesses: the same requires/ensures run
   * symbolically on the lowered code (every path, every input: proof obligations), and
   * concretely on the untouched code (replay of counterexamples, contract-guided search, bounded checks)."""
import builtins
import contextlib
import importlib
import math
import os
import random
import time
import traceback
import typing as tp
import numpy as np


class Discard(Exception):
    pass


class ContractViolation(Exception):
    def __init__(self, label: str, info: tp.Any = None) -> None:
        super().__init__(label)
        self.label, self.info = label, info


class Spec:
    def __init__(self, prop: str, name: str, fn: tp.Any, funcs: tp.Sequence[str], mode: str, **kw: tp.Any) -> None:
        self.prop, self.name, self.fn, self.funcs, self.mode = prop, name, fn, list(funcs), mode
        self.trials = kw.get("trials", 200)
        self.max_paths = kw.get("max_paths", 4000)
        self.timeout_ms = kw.get("timeout_ms", 20000)
        self.bound = kw.get("bound", "")
        self.note = kw.get("note", "")
        self.invariants = kw.get("invariants", None)
        self.weight = kw.get("weight", 1.0)
        self.also = kw.get("also", ())
        self.conc_s = kw.get("conc_s", None)
        self.deep = kw.get("deep", False)  # only in the thorough tier


SPECS: tp.List[Spec] = []


def contract(prop: str, funcs: tp.Sequence[str], mode: str = "proof", **kw: tp.Any) -> tp.Callable[[tp.Any], tp.Any]:
    """registers a contract; funcs: the functions of /repo whose bodies are verified (module:qualname)"""

    def deco(fn: tp.Any) -> tp.Any:
        SPECS.append(Spec(prop, kw.pop("name", fn.__name__), fn, funcs, mode, **kw))
        return fn

    return deco


def bounded(prop: str, funcs: tp.Sequence[str], **kw: tp.Any) -> tp.Callable[[tp.Any], tp.Any]:
    return contract(prop, funcs, mode="bounded", **kw)


def partial(prop: str, funcs: tp.Sequence[str], **kw: tp.Any) -> tp.Callable[[tp.Any], tp.Any]:
    """symbolic in the values but with a bounded structure (e.g. number of points): labelled bounded, not counted as proved"""
    return contract(prop, funcs, mode="partial", **kw)


# ---------------------------------------------------------------------------------------------------- concrete
class Concrete:
    symbolic = False

    def __init__(self, values: tp.Optional[tp.Dict[str, tp.Any]] = None, seed: int = 0) -> None:
        self.given = dict(values or {})
        self.values: tp.Dict[str, tp.Any] = {}
        self.rng = random.Random(seed)
        self.proved: tp.Dict[str, int] = {}
        self.seed = seed
        self._undo: tp.List[tp.Any] = []

    # inputs
    def _get(self, name: str, gen: tp.Callable[[], tp.Any]) -> tp.Any:
        if name in self.values:
            raise RuntimeError(f"duplicate input {name}")
        v = self.given[name] if name in self.given else gen()
        self.values[name] = v
        return v

    def _real(self) -> float:
        r = self.rng
        k = r.randrange(10)
        if k < 2:
            return float(r.choice([0, 1, -1, 2, -2, 0.5, -0.5, 3, 10, -10]))
        if k < 5:
            return float(r.randint(-6, 6))
        if k < 8:
            return r.uniform(-5, 5)
        if k < 9:
            return r.gauss(0, 30)
        return r.choice([-1, 1]) * 10 ** r.uniform(-4, 4)

    def real(self, name: str, lo: tp.Any = None, hi: tp.Any = None) -> float:
        def gen() -> float:
            if lo is not None and hi is not None:
                k = self.rng.randrange(8)
                if k == 0:
                    return float(lo)
                if k == 1:
                    return float(hi)
                return self.rng.uniform(lo, hi)
            v = self._real()
            if lo is not None and v < lo:
                v = lo + abs(v)
            if hi is not None and v > hi:
                v = hi - abs(v)
            return float(v)

        v = float(self._get(name, gen))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        return v

    def np64(self, name: str, **k: tp.Any) -> tp.Any:
        return np.float64(self.real(name, **k))

    def fp(self, name: str) -> float:
        def gen() -> float:
            k = self.rng.randrange(12)
            if k == 0:
                return float("nan")
            if k == 1:
                return float("inf")
            if k == 2:
                return float("-inf")
            if k == 3:
                return self.rng.choice([1e300, -1e300, 5e20, 5.1e20, 1e21, -1e21, 4.9e20, 1e-320, -0.0])
            return self._real()

        v = self._get(name, gen)
        return float(v)

    def int(self, name: str, lo: tp.Any = None, hi: tp.Any = None) -> int:
        def gen() -> int:
            a = -5 if lo is None else lo
            b = a + self.rng.choice([1, 3, 6, 12]) if hi is None else hi
            return self.rng.randint(a, max(a, b))

        v = int(self._get(name, gen))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        return v

    def size(self, name: str, lo: int = 0, hi: int = 8) -> int:
        """any integer >= lo; hi only bounds the generated ones"""
        return self.int(name, lo, hi)

    def anyint(self, name: str, lo: int = -6, hi: int = 6) -> int:
        """any integer; lo and hi only bound the generated ones"""
        return self.int(name, lo, hi)

    def anyints(self, name: str, n: tp.Any, lo: int = -6, hi: int = 6) -> tp.Any:
        return self.ints(name, n, lo, hi)

    def bool(self, name: str) -> bool:
        return builtins.bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choose(self, name: str, options: tp.Sequence[tp.Any]) -> tp.Any:
        i = int(self._get(name, lambda: self.rng.randrange(len(options))))
        return options[i % len(options)]

    def arr(self, name: str, n: tp.Any, lo: tp.Any = None, hi: tp.Any = None, gen: tp.Any = None) -> tp.Any:
        n = int(n)

        def g() -> tp.Any:
            if gen is not None:
                return [gen(self.rng) for _ in range(n)]
            if lo is not None and hi is not None:
                return [self.rng.choice([lo, hi, self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), self.rng.uniform(lo, hi)]) for _ in range(n)]
            return [self._real() for _ in range(n)]

        v = [float(x) for x in self._get(name, g)]
        while len(v) < n:
            v.append(float(g()[0]))
        v = v[:n]
        if any(lo is not None and x < lo or hi is not None and x > hi for x in v):
            raise Discard()
        return np.array(v, dtype=float)

    def reals(self, name: str, n: tp.Any, **kw: tp.Any) -> tp.Any:
        return self.arr(name, n, **kw).tolist()

    def ints(self, name: str, n: tp.Any, lo: int = -3, hi: int = 3) -> tp.Any:
        n = int(n)
        v = [int(x) for x in self._get(name, lambda: [self.rng.randint(lo, hi) for _ in range(n)])]
        while len(v) < n:
            v.append(self.rng.randint(lo, hi))
        return v[:n]

    def intarr(self, name: str, n: tp.Any, lo: int = -3, hi: int = 3) -> tp.Any:
        return np.array(self.ints(name, n, lo, hi), dtype=int)

    def seqof(self, n: tp.Any, fn: tp.Any) -> tp.Any:
        return [fn(i) for i in range(int(n))]

    def array(self, values: tp.Any) -> tp.Any:
        return np.array(values, dtype=float)

    # contract
    def assume(self, c: tp.Any) -> None:
        if not c:
            raise Discard()

    def prove(self, label: str, c: tp.Any, **info: tp.Any) -> None:
        self.proved[label] = self.proved.get(label, 0) + 1
        if not builtins.bool(np.all(c)):
            raise ContractViolation(label, {k: _j(v) for k, v in info.items()})

    def cover(self, label: str) -> None:
        self.proved["cover:" + label] = self.proved.get("cover:" + label, 0) + 1

    def fail(self, label: str, **info: tp.Any) -> None:
        self.prove(label, False, **info)

    def forall(self, n: tp.Any, fn: tp.Any) -> builtins.bool:
        return all(builtins.bool(fn(i)) for i in range(int(n)))

    def exists(self, n: tp.Any, fn: tp.Any) -> builtins.bool:
        return any(builtins.bool(fn(i)) for i in range(int(n)))

    def eq(self, a: tp.Any, b: tp.Any, tol: float = 1e-7) -> tp.Any:
        return builtins.bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol))

    def le(self, a: tp.Any, b: tp.Any, tol: float = 1e-9) -> tp.Any:
        a, b = float(a), float(b)
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def lt(self, a: tp.Any, b: tp.Any) -> tp.Any:
        return a < b

    def land(self, *a: tp.Any) -> builtins.bool:
        return all(builtins.bool(x) for x in a)

    def lor(self, *a: tp.Any) -> builtins.bool:
        return any(builtins.bool(x) for x in a)

    def lnot(self, a: tp.Any) -> builtins.bool:
        return not a

    def implies(self, a: tp.Any, b: tp.Any) -> builtins.bool:
        if not a:
            return True
        return builtins.bool(b() if callable(b) else b)

    def iff(self, a: tp.Any, b: tp.Any) -> builtins.bool:
        return builtins.bool(a) == builtins.bool(b)

    def ite(self, c: tp.Any, a: tp.Any, b: tp.Any) -> tp.Any:
        return a if c else b

    def abs(self, a: tp.Any) -> tp.Any:
        return abs(a)

    def at(self, s: tp.Any, i: tp.Any) -> tp.Any:
        return s[i]

    def len(self, s: tp.Any) -> tp.Any:
        return len(s)

    def patch(self, obj: tp.Any, name: str, value: tp.Any, both: builtins.bool = False) -> None:
        """both=False: contract stub, used by the symbolic run only"""
        if both:
            _patch(self._undo, obj, name, value)

    def trusted(self, s: str) -> None:
        pass

    def close(self) -> None:
        _unpatch(self._undo)

    def rng_stub(self, name: str = "rng") -> tp.Any:
        return np.random.RandomState(self.seed % (2**31))


def _patch(undo: tp.List[tp.Any], obj: tp.Any, name: str, value: tp.Any) -> None:
    d = obj.__dict__
    had = name in d
    old = d.get(name)
    undo.append((obj, name, had, old))
    setattr(obj, name, value)


def _unpatch(undo: tp.List[tp.Any]) -> None:
    while undo:
        obj, name, had, old = undo.pop()
        if had:
            setattr(obj, name, old)
        else:
            delattr(obj, name)


def _j(v: tp.Any) -> tp.Any:
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_j(x) for x in v]
    return repr(v)[:300]


# ---------------------------------------------------------------------------------------------------- symbolic
class Symbolic:
    symbolic = True

    def __init__(self, ctx: tp.Any) -> None:
        from . import core, seq, arr
        import z3

        self.c, self.core, self.sq, self.arr_, self.z3 = ctx, core, seq, arr, z3
        self._undo: tp.List[tp.Any] = []

    def _reg(self, name: str, v: tp.Any) -> None:
        if name in self.c.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.c.inputs[name] = v

    def real(self, name: str, lo: tp.Any = None, hi: tp.Any = None) -> tp.Any:
        e = self.z3.Real(name)
        self._reg(name, e)
        v = self.core.SReal(e)
        self._range(v, lo, hi)
        return v

    np64 = real

    def _range(self, v: tp.Any, lo: tp.Any, hi: tp.Any) -> None:
        if lo is not None:
            self.c.add(self.core.tobool(v >= lo))
        if hi is not None:
            self.c.add(self.core.tobool(v <= hi))

    def fp(self, name: str) -> tp.Any:
        e = self.z3.Const(name, self.core.F64)
        self._reg(name, e)
        return self.core.SFp(e)

    def int(self, name: str, lo: tp.Any = None, hi: tp.Any = None) -> tp.Any:
        e = self.z3.Int(name)
        self._reg(name, e)
        v = self.core.SInt(e)
        self._range(v, lo, hi)
        return v

    def size(self, name: str, lo: int = 0, hi: int = 8) -> tp.Any:
        return self.int(name, lo)

    def anyint(self, name: str, lo: int = -6, hi: int = 6) -> tp.Any:
        return self.int(name)

    def anyints(self, name: str, n: tp.Any, lo: int = -6, hi: int = 6) -> tp.Any:
        return self.ints(name, n)

    def bool(self, name: str) -> tp.Any:
        e = self.z3.Bool(name)
        self._reg(name, e)
        return self.core.SBool(e)

    def choose(self, name: str, options: tp.Sequence[tp.Any]) -> tp.Any:
        e = self.z3.Int(name)
        self._reg(name, e)
        self.c.add(self.z3.And(e >= 0, e < len(options)))
        for i in range(len(options) - 1):
            if self.c.decide(e == i):
                return options[i]
        return options[-1]

    def _uf(self, name: str, n: tp.Any, sort: tp.Any, lo: tp.Any, hi: tp.Any) -> tp.Any:
        f = self.z3.Function(name, self.z3.IntSort(), sort)
        self._reg(name, {"len": n if isinstance(n, int) and not self.core.issym(n) else self.core.toz(n), "fn": f})
        i = self.z3.Int("ai")
        if lo is not None or hi is not None:
            cs = []
            if lo is not None:
                cs.append(f(i) >= self.core.toz(lo))
            if hi is not None:
                cs.append(f(i) <= self.core.toz(hi))
            if isinstance(n, int) and not self.core.issym(n) and n <= 64:
                for k in range(n):
                    self.c.add(self.z3.substitute(self.z3.And(*cs), (i, self.z3.IntVal(k))))
            else:
                self.c.add(self.z3.ForAll([i], self.z3.And(*cs), patterns=[f(i)]))
        return f

    def arr(self, name: str, n: tp.Any, lo: tp.Any = None, hi: tp.Any = None, gen: tp.Any = None) -> tp.Any:
        f = self._uf(name, n, self.z3.RealSort(), lo, hi)
        return self.arr_.SArr((n,), lambda i: f(i))

    def intarr(self, name: str, n: tp.Any, lo: tp.Any = None, hi: tp.Any = None) -> tp.Any:
        f = self._uf(name, n, self.z3.IntSort(), lo, hi)
        return self.arr_.SArr((n,), lambda i: f(i))

    def matrix(self, name: str, n: tp.Any, m: tp.Any, lo: tp.Any = None, hi: tp.Any = None, integer: builtins.bool = False) -> tp.Any:
        """any n x m array"""
        z, toz = self.z3, self.core.toz
        f = z.Function(name, z.IntSort(), z.IntSort(), z.IntSort() if integer else z.RealSort())
        i, j = z.Ints("ai aj")
        cs = ([f(i, j) >= toz(lo)] if lo is not None else []) + ([f(i, j) <= toz(hi)] if hi is not None else [])
        if cs:
            self.c.add(z.ForAll([i, j], z.And(*cs), patterns=[f(i, j)]))
        return self.arr_.SArr((n, m), lambda a, b: f(a, b))

    def reals(self, name: str, n: tp.Any, lo: tp.Any = None, hi: tp.Any = None, gen: tp.Any = None) -> tp.Any:
        a = self.arr(name, n, lo, hi)
        return self._lst(a, n)

    def ints(self, name: str, n: tp.Any, lo: tp.Any = None, hi: tp.Any = None) -> tp.Any:
        a = self.intarr(name, n, lo, hi)
        return self._lst(a, n)

    def _lst(self, a: tp.Any, n: tp.Any) -> tp.Any:
        c = self.sq.isconc(n)
        if c is not None:
            return [a.at(i) for i in range(c)]
        return a.toseq()

    def array(self, values: tp.Any) -> tp.Any:
        return self.arr_.toarr(values)

    def seqof(self, n: tp.Any, fn: tp.Any) -> tp.Any:
        c = self.sq.isconc(n)
        if c is not None:
            return [fn(i) for i in range(c)]
        cache: tp.Dict[str, tp.Any] = {}

        def get(k: tp.Any) -> tp.Any:
            key = str(k) if isinstance(k, int) and not self.core.issym(k) else self.z3.simplify(self.core.toz(k)).sexpr()
            if key not in cache:
                cache[key] = fn(k)
            return cache[key]

        return self.sq.SSeq(n, get, list)

    def assume(self, c: tp.Any) -> None:
        if self.core.issym(c):
            self.c.assume(self.core.tobool(c))
        elif not builtins.bool(c):
            raise self.core.Infeasible()

    def prove(self, label: str, c: tp.Any, **info: tp.Any) -> None:
        if type(c) is self.arr_.SArr:
            c = c.all()
        self.c.prove(label, self.core.tobool(c))

    def fail(self, label: str, **info: tp.Any) -> None:
        self.c.prove(label, self.z3.BoolVal(False))

    def cover(self, label: str) -> None:
        self.c.cover(label)

    def forall(self, n: tp.Any, fn: tp.Any) -> tp.Any:
        return self.sq.forall(n, fn)

    def exists(self, n: tp.Any, fn: tp.Any) -> tp.Any:
        return self.sq.exists(n, fn)

    def eq(self, a: tp.Any, b: tp.Any, tol: float = 0) -> tp.Any:
        if type(a) is self.arr_.SArr or type(b) is self.arr_.SArr:
            return self.arr_.np_array_equal(a, b)
        return a == b

    def le(self, a: tp.Any, b: tp.Any, tol: float = 0) -> tp.Any:
        return a <= b

    def lt(self, a: tp.Any, b: tp.Any) -> tp.Any:
        return a < b

    def land(self, *a: tp.Any) -> tp.Any:
        return self.core.land(*a)

    def lor(self, *a: tp.Any) -> tp.Any:
        return self.core.lor(*a)

    def lnot(self, a: tp.Any) -> tp.Any:
        return self.core.lnot(a)

    def implies(self, a: tp.Any, b: tp.Any) -> tp.Any:
        return self.core.implies(a, b)

    def iff(self, a: tp.Any, b: tp.Any) -> tp.Any:
        return self.core.iff(a, b)

    def ite(self, c: tp.Any, a: tp.Any, b: tp.Any) -> tp.Any:
        return self.core.ite(c, a, b)

    def abs(self, a: tp.Any) -> tp.Any:
        return abs(a)

    def at(self, s: tp.Any, i: tp.Any) -> tp.Any:
        if type(s) is self.sq.SSeq:
            return s.at(i)
        if type(s) is self.arr_.SArr:
            return s._row(i)
        return self.sq.seq(s).at(i) if self.core.issym(i) else s[i]

    def len(self, s: tp.Any) -> tp.Any:
        from . import runtime

        return runtime.b_len(s) if self.core.issym(s) or hasattr(type(s), "_ngvc_len") else len(s)

    def patch(self, obj: tp.Any, name: str, value: tp.Any, both: builtins.bool = False) -> None:
        _patch(self._undo, obj, name, value)

    def trusted(self, s: str) -> None:
        self.c.trusted.add(s)

    def close(self) -> None:
        _unpatch(self._undo)

    def rng_stub(self, name: str = "rng") -> tp.Any:
        return SRng(self, name)

    def draw(self, name: str) -> tp.Any:
        """arbitrary real, chosen anew at each call (result of a stub)"""
        return self.core.wrapz(self.c.draw(name, self.z3.RealSort()))


class SRng:
    """trusted contract of numpy.random.RandomState: values only constrained to the documented ranges"""

    def __init__(self, S: Symbolic, name: str) -> None:
        self.S, self.name = S, name
        S.c.trusted.add("numpy RandomState: arbitrary values within the documented ranges")

    def _new(self, size: tp.Any, sort: str, lo: tp.Any = None, hi: tp.Any = None, hi_strict: builtins.bool = False) -> tp.Any:
        S, z3, core = self.S, self.S.z3, self.S.core
        srt = z3.IntSort() if sort == "int" else z3.RealSort()

        def con(e: tp.Any) -> tp.Any:
            cs = []
            if lo is not None:
                cs.append(e >= core.toz(lo))
            if hi is not None:
                cs.append(e < core.toz(hi) if hi_strict else e <= core.toz(hi))
            return z3.And(*cs) if cs else z3.BoolVal(True)

        if size is None:
            return core.wrapz(S.c.draw(self.name, srt, con if lo is not None or hi is not None else None))
        if isinstance(size, tuple) and not core.issym(size):
            shape = size
        else:
            shape = (size,)
        if S.c.idx:
            raise core.Unsupported("random vector inside of a generic element")
        f = S.c.fresh_fn(self.name, *([z3.IntSort()] * len(shape)), srt)
        ix = [z3.Int(f"ri{k}") for k in range(len(shape))]
        if lo is not None or hi is not None:
            S.c.add(z3.ForAll(ix, con(f(*ix)), patterns=[f(*ix)]))
        conc = [S.sq.isconc(s) for s in shape]
        if all(x is not None and x <= 8 for x in conc):
            import itertools

            for t in itertools.product(*[range(x) for x in conc]):  # type: ignore
                S.c.add(con(f(*[z3.IntVal(v) for v in t])))
        return S.arr_.SArr(shape, lambda *i: f(*i))

    def normal(self, loc: tp.Any = 0.0, scale: tp.Any = 1.0, size: tp.Any = None) -> tp.Any:
        return self._new(size, "real")

    def standard_normal(self, size: tp.Any = None) -> tp.Any:
        return self._new(size, "real")

    standard_cauchy = standard_normal

    def uniform(self, low: tp.Any = 0.0, high: tp.Any = 1.0, size: tp.Any = None) -> tp.Any:
        u = self._new(size, "real", 0, 1, True)
        if not self.S.core.issym(low) and not self.S.core.issym(high) and low == 0 and high == 1:
            return u
        return low + (high - low) * u

    def random(self, size: tp.Any = None) -> tp.Any:
        return self._new(size, "real", 0, 1, True)

    random_sample = random

    def rand(self, *shape: tp.Any) -> tp.Any:
        return self._new(tuple(shape) if shape else None, "real", 0, 1, True)

    def randn(self, *shape: tp.Any) -> tp.Any:
        return self._new(tuple(shape) if shape else None, "real")

    def randint(self, low: tp.Any, high: tp.Any = None, size: tp.Any = None, dtype: tp.Any = None) -> tp.Any:
        if high is None:
            low, high = 0, low
        if not (self.S.core.wrapnum(high) > low):
            raise ValueError("low >= high")
        return self._new(size, "int", low, high, True)

    def permutation(self, n: tp.Any) -> tp.Any:
        S, z3 = self.S, self.S.z3
        if not self.S.core.isnum(n):
            a = S.arr_.toarr(n)
            p = self.permutation(a.shape[0])
            return SArrPerm(a, p)
        zn = S.core.toz(n)
        pi = S.c.fresh_fn("perm", z3.IntSort(), z3.IntSort())
        inv = S.c.fresh_fn("pinv", z3.IntSort(), z3.IntSort())
        a = z3.Int("pa")
        S.c.add(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zn), z3.And(pi(a) >= 0, pi(a) < zn, inv(pi(a)) == a)), patterns=[pi(a)]))
        S.c.add(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zn), z3.And(inv(a) >= 0, inv(a) < zn, pi(inv(a)) == a)), patterns=[inv(a)]))
        r = S.arr_.SArr((n,), lambda i: pi(i))
        return r

    def choice(self, a: tp.Any, size: tp.Any = None, replace: builtins.bool = True, p: tp.Any = None) -> tp.Any:
        S = self.S
        if S.core.isnum(a):
            if size is None:
                return self.randint(0, a)
            if replace:
                return self.randint(0, a, size=size)
            perm = self.permutation(a)
            if isinstance(size, tuple):
                raise S.core.Unsupported("choice without replacement of a matrix")
            if not (S.core.wrapnum(size) <= a):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            return S.arr_.SArr((size,), perm.fn)
        if not S.core.issym(a) and builtins.isinstance(a, (list, tuple)) and all(S.core.isnum(x) for x in a) and replace:
            ix = self.randint(0, len(a), size=size)
            z3 = S.z3

            def pick(t: tp.Any) -> tp.Any:
                e = S.core.toz(a[-1])
                for q in range(len(a) - 2, -1, -1):
                    e = z3.If(t == q, S.core.toz(a[q]), e)
                return e

            if size is None:
                return S.core.wrapz(pick(S.core.toz(ix)))
            return S.arr_.SArr(ix.shape, lambda *i: pick(ix.fn(*i)))
        if not S.core.issym(a) and builtins.isinstance(a, (list, tuple)) and size is None and a and not S.c.idx and not any(S.core.issym(x) for x in a):
            for x in a[:-1]:
                if S.c.decide_free("choice"):
                    return x
            return a[-1]
        raise S.core.Unsupported("choice")

    def shuffle(self, x: tp.Any) -> None:
        raise self.S.core.Unsupported("shuffle")


def SArrPerm(a: tp.Any, p: tp.Any) -> tp.Any:
    return a[p]


# ---------------------------------------------------------------------------------------------------- runners
def run_symbolic(spec: Spec) -> tp.Dict[str, tp.Any]:
    from . import core

    t0 = time.time()
    c = core.Ctx(max_paths=spec.max_paths, timeout_ms=spec.timeout_ms)
    core.set_ctx(c)
    status, err = "ok", None
    holder: tp.Dict[str, tp.Any] = {}

    def once() -> None:
        S = Symbolic(c)
        holder["S"] = S
        if spec.invariants is not None:
            c.invariants = spec.invariants(S)
        try:
            spec.fn(S)
            c.cover("path-end")
        except Exception as e:  # exception of the code under verification escaping the contract
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/nevergrad/" in f.filename] or list(tb)
            last = where[-1]
            if isinstance(e, TypeError) and any(w in str(e) for w in ("SSeq", "SArr", "SReal", "SInt", "SBool", "SMap", "Poison", "SFP")):
                raise core.Unsupported(f"{type(e).__name__}: {e}") from e
            if isinstance(e, (NameError, AttributeError, core.z3.Z3Exception)) and "/ngvc/" in tb[-1].filename:
                raise core.Unsupported(f"{type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})") from e
            if "/nevergrad/" in last.filename and "/ngvc/" not in tb[-1].filename or _raised_by_code(tb):
                c.prove(f"no-exception[{type(e).__name__}]", core.z3.BoolVal(False), info=f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}")
            else:
                raise core.Unsupported(f"{type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})") from e
        finally:
            S.close()

    try:
        c.explore(once)
    except core.Unsupported as e:
        status, err = "unsupported", f"{e} @ {_where(e)}"
    except RecursionError as e:
        status, err = "unsupported", f"recursion {e}"
    finally:
        if "S" in holder:
            holder["S"].close()
        core.set_ctx(None)
    obl = []
    for o in c.obls.values():
        obl.append({k: o[k] for k in ("name", "n", "discharged", "time", "backend")})
    return {
        "spec": spec.name, "prop": spec.prop, "status": status, "error": err, "obligations": obl,
        "failures": c.failures[:10], "paths": c.paths, "covered": c.covered, "solver_s": c.solver_s,
        "queries": c.queries, "trusted": sorted(c.trusted), "loops": c.loops, "wall_s": time.time() - t0,
        "funcs": spec.funcs,
    }


def _raised_by_code(tb: tp.Any) -> builtins.bool:
    """the exception was raised by nevergrad code (possibly through a shim emulating python/numpy errors)"""
    return any("/nevergrad/" in f.filename for f in tb)


def _where(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    w = [f for f in tb if "/nevergrad/" in f.filename] or [tb[-1]]
    return f"{os.path.basename(w[-1].filename)}:{w[-1].lineno}"


def run_concrete(spec: Spec, values: tp.Any = None, seed: int = 0) -> tp.Dict[str, tp.Any]:
    S = Concrete(values, seed)
    state = np.random.get_state()
    pystate = random.getstate()
    np.random.seed(seed % (2**32))
    random.seed(seed)
    try:
        spec.fn(S)
        return {"status": "ok", "values": S.values, "proved": S.proved}
    except Discard:
        return {"status": "discard", "values": S.values}
    except ContractViolation as e:
        return {"status": "violation", "label": e.label, "values": S.values, "info": e.info}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if builtins.isinstance(e, AttributeError) and spec.mode != "bounded":
            raise  # the contract works on a partially built object which lacks something: not a statement about the code
        if any("/nevergrad/" in f.filename for f in tb):
            return {"status": "violation", "label": f"no-exception[{type(e).__name__}]", "values": S.values,
                    "info": f"{type(e).__name__}: {e} at {[f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-4:]}"}
        raise
    finally:
        S.close()
        np.random.set_state(state)
        random.setstate(pystate)


def load_contracts(only: tp.Optional[str] = None) -> tp.List[Spec]:
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f[0] == "c":
            importlib.import_module("contracts." + f[:-3])
    return [s for s in SPECS if only is None or s.prop == only or only in s.also]
