"""runtime of the lowered code: builtins and library shims that are the real thing on concrete arguments"""
import builtins
import itertools
import math
import types
import typing as tp
import z3
import numpy as np
from . import core, seq as sq, arr
from .core import (
    Sym, SBool, SInt, SReal, SFp, SNum, Unsupported, Infeasible, NEXT, BREAK, ctx, issym, toz, toreal, tobool,
    wrapz, isnum, ite,
)
from .seq import SSeq, isconc, mkint, zlen
from .arr import SArr


def anysym(args: tp.Iterable[tp.Any], depth: int = 0) -> bool:
    for a in args:
        if issym(a):
            return True
        if depth < 3:
            if type(a) in (list, tuple) and anysym(a, depth + 1):
                return True
            if type(a) is dict and anysym(a.values(), depth + 1):
                return True
    return False


# ---------------------------------------------------------------- builtins
def b_float(x: tp.Any = 0.0) -> tp.Any:
    if type(x) is SArr:
        x = x.item()
    if type(x) is SFp:
        return x
    if type(x) is SBool:
        x = x._i()
    if type(x) is SInt:
        return SReal(z3.ToReal(x.e))
    if type(x) is SReal:
        return x
    if type(x) is SSeq:
        raise TypeError("float() argument must be a string or a real number")
    raise Unsupported("float")


def b_int(x: tp.Any = 0) -> tp.Any:
    if type(x) is SArr:
        x = x.item()
    if isnum(x) and issym(x):
        return core.toint(x)
    raise Unsupported("int")


def b_bool(x: tp.Any) -> tp.Any:
    if type(x) is SBool:
        return x
    if isnum(x):
        return SBool(tobool(x))
    return bool(x)


def _frozen_cells(f: tp.Any) -> tp.Any:
    if f is None or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def b_len(x: tp.Any) -> tp.Any:
    if type(x) is SSeq:
        return x.n
    if type(x) is SArr:
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if hasattr(type(x), "_ngvc_len"):
        return x._ngvc_len()
    raise Unsupported("len")


def b_range(*a: tp.Any) -> tp.Any:
    if len(a) == 1:
        n = toz(a[0])
        return SSeq(mkint(z3.If(n > 0, n, 0)), lambda k: k, list)
    lo, hi = toz(a[0]), toz(a[1])
    st = 1 if len(a) == 2 else isconc(a[2])
    if st is None or st == 0:
        raise Unsupported("range step")
    if st == 1:
        n = hi - lo
        return SSeq(mkint(z3.If(n > 0, n, 0)), lambda k: mkint(lo + toz(k)), list)
    if st > 0:
        n = z3.If(hi > lo, (hi - lo + st - 1) / st, 0)
    else:
        n = z3.If(lo > hi, (lo - hi - st - 1) / (-st), 0)
    return SSeq(mkint(n), lambda k: mkint(lo + toz(k) * st), list)


def b_enumerate(s: tp.Any, start: tp.Any = 0) -> tp.Any:
    s = sq.seq(s)
    return SSeq(s.n, lambda k: (k + start if start != 0 else k, s.at(k)), list)


def b_zip(*seqs: tp.Any, strict: bool = False) -> tp.Any:
    ss = [sq.seq(x if not builtins.isinstance(x, itertools.count) else x) for x in seqs]
    n = ss[0].n
    for s in ss[1:]:
        za, zb = zlen(n), zlen(s.n)
        if not za.eq(zb):
            n = mkint(z3.If(za <= zb, za, zb))
    return SSeq(n, lambda k: tuple(s.at(k) for s in ss), list)


def b_reversed(s: tp.Any) -> tp.Any:
    s = sq.seq(s)
    n = zlen(s.n)
    return SSeq(s.n, lambda k: s.at(mkint(n - 1 - toz(k))), list)


def b_sorted(s: tp.Any, key: tp.Any = None, reverse: bool = False) -> tp.Any:
    c = isconc(s.n) if type(s) is SSeq else (isconc(s.shape[0]) if type(s) is SArr else len(s))
    if c is not None and c <= 8:
        return _isort(builtins.list(s), key, reverse)
    return sq.sorted_seq(sq.seq(s), key, reverse)


def _isort(lst: tp.List[tp.Any], key: tp.Any, reverse: bool) -> tp.List[tp.Any]:
    """stable insertion sort by forking comparisons (what list.sort computes)"""
    key = key or (lambda x: x)
    out: tp.List[tp.Tuple[tp.Any, tp.Any]] = []
    for x in lst:
        k = key(x)
        pos = len(out)
        while pos > 0 and ((k < out[pos - 1][0]) if not reverse else (out[pos - 1][0] < k)):
            pos -= 1
        out.insert(pos, (k, x))
    return [x for _, x in out]


def _minmax(sign: int) -> tp.Any:
    def f(*a: tp.Any, key: tp.Any = None, **kw: tp.Any) -> tp.Any:
        if len(a) == 1:
            s = a[0]
            if type(s) is SArr:
                s = s.toseq()
            if type(s) is SSeq and isconc(s.n) is None:
                if "default" in kw:
                    if not ctx().decide(zlen(s.n) > 0):
                        return kw["default"]
                return sq.extremum(s, key, sign)
            items = builtins.list(s)
        else:
            items = builtins.list(a)
        if not items:
            if "default" in kw:
                return kw["default"]
            raise ValueError("min()/max() arg is an empty sequence")
        r = items[0]
        if key is None and builtins.all(isnum(x) for x in items):
            for x in items[1:]:
                if core._infcmp(x) is not None or core._infcmp(r) is not None:
                    c = (x < r) if sign < 0 else (x > r)
                    r = x if c else r
                else:
                    r = ite((x < r) if sign < 0 else (x > r), x, r)
            return r
        kf = key or (lambda x: x)
        kr = kf(r)
        for x in items[1:]:
            kx = kf(x)
            if (kx < kr) if sign < 0 else (kx > kr):
                r, kr = x, kx
        return r

    return f


def b_sum(s: tp.Any, start: tp.Any = 0) -> tp.Any:
    if type(s) is SArr:
        if s.ndim == 1:
            return s.sum() + start
        s = s.toseq()
    if type(s) is SSeq:
        c = isconc(s.n)
        if c is None:
            i = sq.generic()
            cx = ctx()
            cx.solver.push()
            npc = len(cx.pc)
            before = cx.fresh_n
            cx.add(z3.And(i >= 0, i < zlen(s.n)))
            try:
                v = sq.purenum(lambda: s.at(SInt(i)))
            finally:
                cx.solver.pop()
                del cx.pc[npc:]
            t = toz(v)
            sq._no_fresh(t, before)
            return sq.fold_sum(s.n, t, i, start)(s.n)
        s = builtins.list(s)
    r = start
    for x in s:
        r = r + x
    return r


def b_any(s: tp.Any) -> tp.Any:
    if type(s) is SArr:
        return s.any()
    if type(s) is SSeq:
        return sq.exists(s.n, lambda i: s.at(i))
    for x in s:
        if x:
            return True
    return False


def b_all(s: tp.Any) -> tp.Any:
    if type(s) is SArr:
        return s.all()
    if type(s) is SSeq:
        return sq.forall(s.n, lambda i: s.at(i))
    for x in s:
        if not x:
            return False
    return True


def b_list(s: tp.Any = ()) -> tp.Any:
    s = sq.seq(s) if type(s) in (SSeq, SArr) else s
    if type(s) is SSeq:
        c = isconc(s.n)
        if c is not None and c <= sq.MAXUNROLL:
            return [s.at(k) for k in builtins.range(c)]
        return SSeq(s.n, s._get, list)
    return builtins.list(s)


def b_tuple(s: tp.Any = ()) -> tp.Any:
    r = b_list(s)
    return SSeq(r.n, r._get, tuple) if type(r) is SSeq else builtins.tuple(r)


def b_abs(x: tp.Any) -> tp.Any:
    return abs(x)


def b_round(x: tp.Any, nd: tp.Any = None) -> tp.Any:
    return x.__round__(nd) if nd is not None else x.__round__()


def b_isinstance(x: tp.Any, t: tp.Any) -> bool:
    ts = t if builtins.isinstance(t, tuple) else (t,)
    import numbers

    for u in ts:
        if type(x) in (SReal, SFp) and u in (float, np.float64, np.floating, numbers.Real, numbers.Number, tp.SupportsFloat):
            return True
        if type(x) is SInt and u in (int, np.int64, np.integer, numbers.Integral, numbers.Real, numbers.Number):
            return True
        if type(x) is SBool and u in (bool, np.bool_, int):
            return True
        try:
            if builtins.isinstance(x, u):
                return True
        except TypeError:
            pass
    return False


def b_iter(s: tp.Any) -> tp.Any:
    return builtins.iter(s)


def b_set(s: tp.Any = ()) -> tp.Any:
    raise Unsupported("set of symbolic values")


def b_dict(*a: tp.Any, **k: tp.Any) -> tp.Any:
    if builtins.all(not issym(x) for x in a):
        return builtins.dict(*a, **k)
    raise Unsupported("dict of a symbolic value")


def b_map(f: tp.Any, *s: tp.Any) -> tp.Any:
    z = b_zip(*s)
    return SSeq(z.n, lambda k: f(*z.at(k)), list)


def b_str(x: tp.Any = "") -> str:
    return "<sym>"


def b_type(x: tp.Any) -> tp.Any:
    return x.__class__


def b_divmod(a: tp.Any, b: tp.Any) -> tp.Any:
    return (core.wrapnum(a) // b, core.wrapnum(a) % b)


SHIMS: tp.Dict[tp.Any, tp.Any] = {
    float: b_float, int: b_int, bool: b_bool, len: b_len, range: b_range, enumerate: b_enumerate, zip: b_zip,
    reversed: b_reversed, sorted: b_sorted, min: _minmax(-1), max: _minmax(1), sum: b_sum, any: b_any, all: b_all,
    list: b_list, tuple: b_tuple, set: b_set, frozenset: b_set, dict: b_dict, abs: b_abs, round: b_round,
    isinstance: b_isinstance, iter: b_iter, map: b_map, str: b_str, repr: b_str, divmod: b_divmod, type: b_type,
}
_DEEP = {min, max, sum, any, all, sorted, zip, enumerate, list, tuple, set, dict, map}


def _shimmed(real: tp.Any) -> tp.Any:
    shim = SHIMS.get(real)
    if shim is None:
        return real

    def f(*a: tp.Any, **k: tp.Any) -> tp.Any:
        if real is len and len(a) == 1 and type(a[0]).__module__.startswith(("nevergrad.", "contracts.")) and "__len__" in type(a[0]).__dict__:
            return type(a[0]).__len__(a[0])
        for x in a:
            if issym(x) or hasattr(type(x), "_ngvc_len") and real is len:
                return shim(*a, **k)
            if hasattr(type(x), "_ngvc_iter") and real in (enumerate, zip, reversed, list, tuple):
                return shim(*[y._ngvc_iter() if hasattr(type(y), "_ngvc_iter") else y for y in a], **k)
            if real in _DEEP and type(x) in (list, tuple) and real not in (zip, enumerate, list, tuple, map, dict):
                if anysym(x):
                    return shim(*a, **k)
        return real(*a, **k)

    return f


_SH = {k: _shimmed(k) for k in SHIMS}


# ---------------------------------------------------------------- modules
MATH: tp.Dict[str, tp.Any] = {
    "isnan": arr.np_isnan, "isinf": arr.np_isinf, "sqrt": arr.np_sqrt, "exp": arr.NP["exp"], "log": arr.np_log,
    "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(), "tanh": arr.NP["tanh"],
    "isfinite": arr.np_isfinite, "fabs": abs, "pow": core.spow,
}


class ModShim:
    """pass-through module proxy: symbolic arguments are routed to the trusted contract of the function"""

    def __init__(self, mod: tp.Any, table: tp.Dict[str, tp.Any], prefix: str = "") -> None:
        self.__dict__["_mod"] = mod
        self.__dict__["_table"] = table
        self.__dict__["_prefix"] = prefix

    def __getattr__(self, name: str) -> tp.Any:
        real = getattr(self._mod, name)
        if builtins.isinstance(real, types.ModuleType) and name in ("linalg", "random", "stats"):
            sh: tp.Any = ModShim(real, self._table, name + ".")
            self.__dict__[name] = sh
            return sh
        if builtins.isinstance(real, type) or not callable(real):
            if hasattr(real, "cdf"):
                return ModShim(real, self._table)
            return real
        if hasattr(real, "cdf"):
            return ModShim(real, self._table)
        key = self._prefix + name
        table = self._table

        f = _Fn(real, key, table)
        self.__dict__[name] = f
        return f


def _ident(x: tp.Any) -> tp.Any:
    return x


class _Fn:
    """library function: itself on concrete arguments, its trusted contract on symbolic ones"""

    def __init__(self, real: tp.Any, key: str, table: tp.Dict[str, tp.Any]) -> None:
        self.real, self.key, self.table = real, key, table
        self.__name__ = getattr(real, "__name__", key)

    def __call__(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        if anysym(a) or anysym(k.values()):
            fn = self.table.get(self.key)
            if fn is None:
                raise Unsupported(f"no contract for numpy/math function {self.key}")
            ctx().trusted.add(f"numpy/math contract: {self.key}")
            return fn(*a, **k)
        return self.real(*a, **k)

    def __getattr__(self, n: str) -> tp.Any:
        if n in ("real", "key", "table"):
            raise AttributeError(n)
        return getattr(self.real, n)

    def __reduce__(self) -> tp.Any:
        return _ident, (self.real,)


def chain(*its: tp.Any) -> tp.Any:
    if any(issym(x) for x in its):
        r = sq.seq(its[0])
        for x in its[1:]:
            r = sq.concat(r, x)
        return r
    return itertools.chain(*its)


class VC:
    NEXT, BREAK = NEXT, BREAK

    def __init__(self) -> None:
        self.np = ModShim(np, arr.NP)
        self.math = ModShim(math, MATH)
        self.stats: tp.Any = None
        self.wrapped: tp.List[str] = []

    def b(self, real: tp.Any) -> tp.Any:
        try:
            return _SH.get(real, real)
        except TypeError:
            return real

    def it(self, x: tp.Any) -> tp.Any:
        if type(x) is SArr:
            x = x.toseq()
        if type(x) is SSeq:
            c = isconc(x.n)
            if c is not None and c <= sq.MAXUNROLL:
                return builtins.list(x)
        if hasattr(type(x), "_ngvc_iter"):
            return x._ngvc_iter()
        return x

    def issym(self, x: tp.Any) -> bool:
        return type(x) is SSeq

    def forloop(self, *a: tp.Any) -> tp.Any:
        return sq.forloop(*a)

    def whileloop(self, *a: tp.Any) -> tp.Any:
        return sq.whileloop(*a)

    def wantloop(self, key: str) -> bool:
        c = core.CTX
        return c is not None and bool(c.stack) and key in c.invariants

    def comp(self, kind: str, it: tp.Any, elt: tp.Any, cond: tp.Any) -> tp.Any:
        it = self.it(it)
        if type(it) is SSeq:
            # elements are computed on demand: they must not see later assignments of the enclosing variables
            elt, cond = _frozen_cells(elt), _frozen_cells(cond)
            cells = [c.cell_contents for g in (elt, cond) if g is not None for c in (g.__closure__ or ())]
            heap = sq._snapshot(cells, 1)
            cx = core.ctx()
            cx.fresh_n += 1
            cid = cx.fresh_n

            def indexed(f: tp.Any) -> tp.Any:
                def at(k: tp.Any) -> tp.Any:
                    cx.idx.append([cid, core.toz(k), 0])
                    try:
                        return f(it.at(k))
                    finally:
                        cx.idx.pop()

                return at

            if kind in ("list", "gen"):
                if cond is None:

                    def at(k: tp.Any) -> tp.Any:
                        if not sq._unchanged(heap):
                            raise Unsupported("lazily read comprehension whose elements depend on modified objects")
                        return indexed(elt)(k)

                    return SSeq(it.n, at, list)
                return sq.filtered(it, cond, elt)
            if kind == "set":
                raise Unsupported("set comprehension over a symbolic sequence")
            key = lambda k: elt(it.at(k))[0]  # noqa
            core.ctx().prove("dict-comprehension-keys-distinct", core.tobool(sq.forall(it.n, lambda a: sq.forall(it.n, lambda b: core.lor(a == b, core.lnot(key(a) == key(b)))))))
            return sq.SMap(sq.filtered(it, cond or (lambda x: True), elt))
        if kind == "list":
            return [elt(x) for x in it if cond is None or cond(x)]
        if kind == "set":
            return {elt(x) for x in it if cond is None or cond(x)}
        if kind == "dict":
            return {k: v for k, v in (elt(x) for x in it if cond is None or cond(x))}
        return (elt(x) for x in it if cond is None or cond(x))

    def wrap_globals(self, module: types.ModuleType) -> None:
        d = module.__dict__
        for k, v in builtins.list(d.items()):
            if v is np:
                d[k] = self.np
            elif v is math:
                d[k] = self.math
            elif builtins.isinstance(v, types.ModuleType) and v.__name__ == "scipy":
                d[k] = ModShim(v, arr.NP)
            elif builtins.isinstance(v, types.ModuleType) and v.__name__ == "scipy.stats":
                if self.stats is None:
                    self.stats = ModShim(v, arr.NP)
                d[k] = self.stats
            elif v is itertools:
                d[k] = _ItShim()
            elif builtins.isinstance(v, types.BuiltinFunctionType) and getattr(math, v.__name__, None) is v and v.__name__ in MATH:
                d[k] = getattr(self.math, v.__name__)
        self.wrapped.append(module.__name__)


class _Chain:
    from_iterable = staticmethod(itertools.chain.from_iterable)

    def __call__(self, *its: tp.Any) -> tp.Any:
        return chain(*its)


class _ItShim:
    chain = _Chain()

    def __getattr__(self, n: str) -> tp.Any:
        return getattr(itertools, n)
