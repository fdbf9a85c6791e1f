"""Symbolic numpy arrays (index -> term) and the trusted contracts of the numpy functions the code calls."""
import builtins
import fractions
import functools
import math
import types
import typing as tp
import z3
import numpy as np
from . import core, seq as sq
from .core import (
    Sym, SBool, SInt, SReal, SFp, SNum, Unsupported, Infeasible, ctx, issym, toz, toreal, tobool, wrapz, isnum, ite,
)
from .seq import SSeq, isconc, mkint, zlen, generic

R, I = z3.RealSort(), z3.IntSort()


class SArr:
    """ndarray of (possibly symbolic) shape whose elements are mathematical reals / integers / booleans"""

    _ngvc_sym = True
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape: tp.Sequence[tp.Any], fn: tp.Callable[..., tp.Any], dtype: tp.Any = None) -> None:
        self.shape = tuple(c if (c := isconc(s)) is not None else s for s in shape)
        self._src: tp.Any = None
        self._fn: tp.Any = fn
        self._dt = dtype

    @property
    def fn(self) -> tp.Callable[..., tp.Any]:
        """current content: index terms -> element term (read through the base for a view)"""
        if self._src is None:
            return self._fn
        base, mp = self._src[:2]
        f = base.fn
        return lambda *ix: f(*mp(*ix))

    @fn.setter
    def fn(self, fn: tp.Callable[..., tp.Any]) -> None:
        if self._src is None:
            self._fn = fn
            return
        put = self._src[2]
        if put is None:
            raise Unsupported("write through this view of an array")
        put(SArr(self.shape, fn))

    def _view(self, shape: tp.Sequence[tp.Any], mp: tp.Callable[..., tp.Any], put: tp.Any = None) -> "SArr":
        """array sharing the memory of this one: element ix is element mp(ix) of this one"""
        v = SArr(shape, None, self._dt)  # type: ignore
        v._src = (self, mp, put)
        return v

    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return np.ndarray

    def __array__(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        raise Unsupported("symbolic array entered native numpy code")

    __hash__ = None  # type: ignore

    def __repr__(self) -> str:
        return f"<SArr {self.shape}>"

    def __format__(self, s: str) -> str:
        return "<sarr>"

    # ---- structure
    @property
    def ndim(self) -> int:
        return len(self.shape)

    @property
    def size(self) -> tp.Any:
        r: tp.Any = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self) -> tp.Any:
        if self._dt is not None:
            return self._dt
        k = self.sort()
        return np.dtype(float) if k == R else np.dtype(int) if k == I else np.dtype(bool)

    def sort(self) -> tp.Any:
        return self.fn(*[z3.Int("s!0") for _ in self.shape]).sort()

    @property
    def T(self) -> "SArr":
        def put(a: "SArr") -> None:
            g = a.fn
            self.fn = lambda *ix: g(*ix[::-1])

        return self._view(self.shape[::-1], lambda *ix: ix[::-1], put)

    def transpose(self) -> "SArr":
        return self.T

    @property
    def data(self) -> "SArr":
        return self

    def copy(self) -> "SArr":
        return SArr(self.shape, self.fn, self._dt)

    def __copy__(self) -> "SArr":
        return self.copy()

    def __deepcopy__(self, memo: tp.Any) -> "SArr":
        return self.copy()

    def astype(self, t: tp.Any, copy: bool = True) -> "SArr":
        f = self.fn
        s = self.sort()
        if t in (float, np.float64, "float"):
            return SArr(self.shape, (lambda *ix: toreal(f(*ix))) if s != z3.BoolSort() else (lambda *ix: z3.If(f(*ix), z3.RealVal(1), z3.RealVal(0))))
        if t in (int, np.int64, "int"):
            if s == I:
                return self.copy()
            if s == z3.BoolSort():
                return SArr(self.shape, lambda *ix: z3.If(f(*ix), z3.IntVal(1), z3.IntVal(0)))
            return SArr(self.shape, lambda *ix: z3.If(f(*ix) >= 0, z3.ToInt(f(*ix)), -z3.ToInt(-f(*ix))))
        if t in (bool, np.bool_):
            return self if s == z3.BoolSort() else SArr(self.shape, lambda *ix: f(*ix) != 0)
        raise Unsupported("astype")

    def at(self, *ix: tp.Any) -> tp.Any:
        return wrapz(self.fn(*[toz(i) for i in ix]))

    def _same(self) -> "SArr":
        """another array object over the same memory and the same shape"""
        def put(a: "SArr") -> None:
            self.fn = a.fn

        return self._view(self.shape, lambda *ix: ix, put)

    def ravel(self, order: str = "C") -> "SArr":
        if order not in ("C", "A", "K"):
            raise Unsupported("ravel order")
        if self.ndim == 1:
            return self._same()
        if self.ndim == 0:
            return self._view((1,), lambda i: ())
        if self.ndim == 2:
            if isconc(self.shape[0]) == 1:
                def put(a: "SArr") -> None:
                    g = a.fn
                    self.fn = lambda i, j: g(j)

                return self._view((self.shape[1],), lambda j: (z3.IntVal(0), j), put)
            if isconc(self.shape[1]) == 1:
                return self._view((self.shape[0],), lambda i: (i, z3.IntVal(0)), None)
            m = toz(self.shape[1])
            return self._view((self.size,), lambda k: (k / m, k % m), None)
        raise Unsupported("ravel ndim > 2")

    def flatten(self, order: str = "C") -> "SArr":
        return self.ravel(order).copy()

    def squeeze(self) -> "SArr":
        if self.ndim == 1 and isconc(self.shape[0]) != 1:
            return self._same()
        raise Unsupported("squeeze")

    def reshape(self, *shape: tp.Any, order: str = "C") -> "SArr":
        if len(shape) == 1 and builtins.isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == self.ndim and builtins.all(_dimeq(a, b) for a, b in builtins.zip(shape, self.shape)):
            return self._same()
        flat = self.ravel()
        if len(shape) == 1:
            n = shape[0]
            if isconc(n) == -1 or _dimeq(n, flat.shape[0]):
                return flat
            if not (SInt(toz(n)) == flat.size):
                raise ValueError("cannot reshape array")
            return flat
        if len(shape) == 2:
            a, b = shape
            if isconc(a) == -1:
                if isconc(b) == 1:
                    a = flat.shape[0]
                else:
                    a = mkint(toz(flat.shape[0]) / toz(b))
            if isconc(b) == -1:
                b = mkint(toz(flat.shape[0]) / toz(a)) if isconc(a) != 1 else flat.shape[0]
            zb = toz(b)
            if isconc(a) == 1:
                def put(x: "SArr") -> None:
                    g = x.fn
                    flat.fn = lambda j: g(z3.IntVal(0), j)

                return flat._view((a, b), lambda i, j: (j,), put)
            return flat._view((a, b), lambda i, j: (i * zb + j,), None)
        raise Unsupported("reshape")

    # ---- sequence protocol
    def __len__(self) -> int:
        c = isconc(self.shape[0])
        if c is None:
            raise Unsupported("native len() of a symbolic array")
        return c

    def toseq(self) -> SSeq:
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        src = self if self.ndim > 1 else self.copy()  # rows share the memory of the array, numbers do not
        return SSeq(self.shape[0], lambda i: src._row(i), list)

    def _row(self, i: tp.Any) -> tp.Any:
        if self.ndim == 1:
            return self.at(i)
        z = toz(i)

        def put(a: "SArr") -> None:
            f, g = self.fn, a.fn
            self.fn = lambda i0, *ix: z3.If(i0 == z, g(*ix), f(i0, *ix))

        return self._view(self.shape[1:], lambda *ix: (z, *ix), put)

    def __iter__(self) -> tp.Any:
        c = isconc(self.shape[0])
        if c is not None and c <= 256:
            return builtins.iter([self._row(i) for i in builtins.range(c)])
        raise Unsupported("native iteration over a symbolic array")

    def tolist(self) -> tp.Any:
        c = isconc(self.shape[0]) if self.shape else None
        if c is not None and c <= 256:
            return [x if isnum(x) else x.tolist() for x in self]
        return self.toseq()

    def item(self, *a: tp.Any) -> tp.Any:
        if a:
            raise Unsupported("item(i)")
        if builtins.all(isconc(s) == 1 for s in self.shape):
            return self.at(*[0] * self.ndim)
        if not (SInt(toz(self.size)) == 1):
            raise ValueError("can only convert an array of size 1")
        return self.at(*[0] * self.ndim)

    def __bool__(self) -> bool:
        if builtins.all(isconc(s) == 1 for s in self.shape):
            return bool(wrapz(self.fn(*[z3.IntVal(0)] * self.ndim)))
        if not (SInt(toz(self.size)) == 1):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(wrapz(self.fn(*[z3.IntVal(0)] * self.ndim)))

    def tobytes(self) -> tp.Any:
        raise Unsupported("tobytes")

    def _norm(self, i: tp.Any, n: tp.Any) -> tp.Any:
        """python index -> z3 index, raising IndexError like numpy"""
        c, cn = isconc(i), isconc(n)
        if c is not None and cn is not None:
            if not -cn <= c < cn:
                raise IndexError("index out of bounds")
            return z3.IntVal(c if c >= 0 else c + cn)
        zi, zn = toz(i), toz(n)
        if c is not None:
            if c >= 0:
                if not ctx().decide(zi < zn):
                    raise IndexError("index out of bounds")
                return zi
            if not ctx().decide(zn + zi >= 0):
                raise IndexError("index out of bounds")
            return z3.simplify(zn + zi)
        if not ctx().decide(z3.And(zi >= -zn, zi < zn)):
            raise IndexError("index out of bounds")
        if ctx().decide(zi >= 0):
            return zi
        return zi + zn

    def _index(self, key: tp.Any) -> tp.Tuple[tp.List[tp.Any], tp.Callable[..., tp.Any]]:
        """basic indexing: result shape and map from result indices to source indices"""
        if not builtins.isinstance(key, tuple) or issym(key):
            key = (key,)
        if builtins.any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            fill = self.ndim - (len([k for k in key if k is not None]) - 1)
            key = key[:p] + (slice(None),) * fill + key[p + 1 :]
        nk = len([k for k in key if k is not None])
        if nk > self.ndim:
            raise IndexError("too many indices for array")
        key = tuple(key) + (slice(None),) * (self.ndim - nk)
        shape: tp.List[tp.Any] = []
        maps: tp.List[tp.Any] = []
        dim = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[dim]
            if builtins.isinstance(k, slice):
                st = 1 if k.step is None else isconc(k.step)
                if st == 1:
                    zn = toz(n)

                    def norm(v: tp.Any, d: tp.Any) -> tp.Any:
                        if v is None:
                            return d
                        z = toz(v)
                        return z3.simplify(z3.If(z < 0, z3.If(z + zn < 0, 0, z + zn), z3.If(z > zn, zn, z)))

                    a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, zn)
                    m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
                    pos = len(shape)
                    shape.append(mkint(m))
                    maps.append(lambda ix, a=a, pos=pos: z3.simplify(a + ix[pos]) if z3.is_int_value(ix[pos]) else (ix[pos] if z3.is_int_value(a) and a.as_long() == 0 else a + ix[pos]))
                elif st == -1 and k.start is None and k.stop is None:
                    pos = len(shape)
                    shape.append(n)
                    zn = toz(n)
                    maps.append(lambda ix, zn=zn, pos=pos: zn - 1 - ix[pos])
                else:
                    raise Unsupported("slice step")
            elif isnum(k) and not core.isbool(k):
                z = self._norm(k, n)
                maps.append(lambda ix, z=z: z)
            else:
                raise Unsupported(f"index of type {type(k)}")
            dim += 1
        return shape, lambda *ix: [m(ix) for m in maps]

    def __getitem__(self, key: tp.Any) -> tp.Any:
        if type(key) is tuple and len(key) == 1 and type(key[0]) is SArr:
            key = key[0]
        if type(key) is np.ndarray or builtins.isinstance(key, list) and not issym(key):
            key = toarr(np.asarray(key)) if not issym(key) else key
        if type(key) is SSeq:
            key = np_array(key)
        if type(key) is SArr:
            if key.sort() == I and key.ndim == 1:
                f, g, n = self.fn, key.fn, toz(self.shape[0])
                return SArr(
                    (key.shape[0],) + self.shape[1:],
                    lambda i, *r: f(z3.If(g(i) < 0, g(i) + n, g(i)), *r),
                )
            if key.sort() == z3.BoolSort() and key.ndim == 1 and self.ndim == 1:
                fs = sq.filtered(self.toseq(), lambda x: True, lambda x: x) if False else None
                s2 = SSeq(self.shape[0], lambda k: k, list)
                fs = sq.filtered(s2, lambda k: key.at(k), lambda k: self.at(k))
                out = SArr((fs.n,), lambda i: toz(fs.at(mkint(i))))
                out.filt = fs.filt  # type: ignore
                return out
            raise Unsupported("fancy index")
        shape, mp = self._index(key)
        if not shape:
            return wrapz(self.fn(*mp()))

        def put(a: "SArr") -> None:
            self[key] = a

        return self._view(shape, mp, put)

    def __setitem__(self, key: tp.Any, v: tp.Any) -> None:
        if type(key) is tuple and len(key) == 1 and type(key[0]) is SArr:
            key = key[0]
        if type(key) is SArr and key.sort() == I and isconc(key.shape[0]) == 0:
            return
        f = self.fn
        srt = self.sort()

        def co(e: tp.Any) -> tp.Any:
            return toreal(e) if srt == R and e.sort() == I else e

        if type(key) is np.ndarray or builtins.isinstance(key, list):
            key = toarr(np.asarray(key))
        if type(key) is SArr:
            if key.sort() == z3.BoolSort() and builtins.isinstance(v, float) and not np.isfinite(v):
                g0 = [z3.Int(f"mk{d}") for d in builtins.range(key.ndim)]
                if z3.is_false(z3.simplify(key.fn(*g0))):
                    return  # reals are never nan/inf: nothing is selected
            if key.sort() == z3.BoolSort() and isnum(v):
                g, zv = key.fn, co(toz(v)) if srt != z3.BoolSort() else tobool(v)
                self.fn = lambda *ix: z3.If(g(*ix), zv, f(*ix))
                return
            if key.sort() == z3.BoolSort() and key.ndim == 1:
                # masked assignment arr[mask] = other[mask] (same mask positions)
                va = toarr(v)
                filt = getattr(va, "filt", None)
                if filt is not None:
                    g, rho, vf = key.fn, filt[2], va.fn
                    self.fn = lambda i: z3.If(g(i), co(vf(rho(i))), f(i))
                    return
            raise Unsupported("masked assignment")
        if not builtins.isinstance(key, tuple):
            key = (key,)
        key = tuple(key) + (slice(None),) * (self.ndim - len(key))
        if len(key) == 2 and isnum(v) and all(type(x) is SArr for x in key) and key[0].sort() == I:
            # pairs of indices: one cell per position
            zv = co(toz(v))
            ka, kb, kn = key[0].fn, key[1].fn, toz(key[0].shape[0])
            t = z3.Int("pairk")
            if z3.eq(z3.simplify(ka(t)), t):  # arange
                self.fn = lambda i, j: z3.If(z3.And(i >= 0, i < kn, kb(i) == j), zv, f(i, j))
            else:
                self.fn = lambda i, j: z3.If(z3.Exists([t], z3.And(t >= 0, t < kn, ka(t) == i, kb(t) == j)), zv, f(i, j))
            return
        if isnum(v) and any(type(x) is SArr and x.sort() == z3.BoolSort() and x.ndim == 1 for x in key) and all(
            type(x) is SArr and x.ndim == 1 and x.sort() == z3.BoolSort() or builtins.isinstance(x, slice) and x == slice(None) for x in key):
            zv = co(toz(v)) if srt != z3.BoolSort() else tobool(v)
            ms = [(d, x.fn) for d, x in builtins.enumerate(key) if type(x) is SArr]
            self.fn = lambda *ix: z3.If(z3.And(*[g(ix[d]) for d, g in ms]), zv, f(*ix))
            return
        conds: tp.List[tp.Any] = []
        maps: tp.List[tp.Any] = []
        shape: tp.List[tp.Any] = []
        for d, k in builtins.enumerate(key):
            n = self.shape[d]
            if builtins.isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice step")
                zn = toz(n)

                def norm(x: tp.Any, dd: tp.Any) -> tp.Any:
                    if x is None:
                        return dd
                    z = toz(x)
                    return z3.simplify(z3.If(z < 0, z3.If(z + zn < 0, 0, z + zn), z3.If(z > zn, zn, z)))

                a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, zn)
                conds.append(lambda ix, d=d, a=a, b=b: z3.And(ix[d] >= a, ix[d] < b))
                maps.append(lambda ix, d=d, a=a: ix[d] - a)
                shape.append(mkint(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))))
            elif isnum(k):
                z = self._norm(k, n)
                conds.append(lambda ix, d=d, z=z: ix[d] == z)
            else:
                raise Unsupported("assignment index")
        if isnum(v):
            zv = tobool(v) if srt == z3.BoolSort() else co(toz(v))
            self.fn = lambda *ix: z3.If(z3.And(*[c(ix) for c in conds]), zv, f(*ix))
            return
        va = toarr(v)
        va = broadcast_to(va, shape)
        g = va.fn
        self.fn = lambda *ix: z3.If(z3.And(*[c(ix) for c in conds]), co(g(*[m(ix) for m in maps])), f(*ix))

    # ---- elementwise
    def _bin(self, o: tp.Any, f: tp.Any, rev: bool = False) -> tp.Any:
        if builtins.isinstance(o, (float, np.floating)) and not issym(o) and (math.isinf(o) or math.isnan(o)):
            raise Unsupported("inf/nan array arithmetic")
        if not (isnum(o) or type(o) in (SArr, np.ndarray, SSeq) or builtins.isinstance(o, (list, tuple))):
            return NotImplemented
        a, b = (toarr(o), self) if rev else (self, toarr(o))
        return elementwise(f, a, b)

    def __add__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _arith(lambda a, b: a + b))

    def __radd__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _arith(lambda a, b: a + b), True)

    def __sub__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _arith(lambda a, b: a - b))

    def __rsub__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _arith(lambda a, b: a - b), True)

    def __mul__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _arith(lambda a, b: a * b))

    def __rmul__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _arith(lambda a, b: a * b), True)

    def __truediv__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _div)

    def __rtruediv__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _div, True)

    def __mod__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _mod)

    def __floordiv__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, _fdiv)

    def __pow__(self, o: tp.Any) -> tp.Any:
        return np_power(self, o)

    def __rpow__(self, o: tp.Any) -> tp.Any:
        return np_power(o, self)

    def _inplace(self, r: tp.Any) -> "SArr":
        if r is NotImplemented:
            return r
        r = broadcast_to(r, self.shape)
        if self.sort() == I and r.sort() == R:
            raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        g = r.fn
        self.fn = (lambda *ix: toreal(g(*ix))) if self.sort() == R and r.sort() == I else g
        return self

    def __iadd__(self, o: tp.Any) -> tp.Any:
        return self._inplace(self + o)

    def __isub__(self, o: tp.Any) -> tp.Any:
        return self._inplace(self - o)

    def __imul__(self, o: tp.Any) -> tp.Any:
        return self._inplace(self * o)

    def __itruediv__(self, o: tp.Any) -> tp.Any:
        return self._inplace(self / o)

    def __neg__(self) -> tp.Any:
        return elementwise(lambda a: -a, self)

    def __abs__(self) -> tp.Any:
        return elementwise(lambda a: z3.If(a >= 0, a, -a), self)

    def __invert__(self) -> tp.Any:
        return elementwise(lambda a: z3.Not(a), self)

    def _cmp(self, o: tp.Any, f: tp.Any, inf: tp.Tuple[bool, bool]) -> tp.Any:
        if o is None:
            return NotImplemented
        i = core._infcmp(o) if not issym(o) else None
        if i is not None:
            v = (inf[0] if i > 0 else inf[1]) if i == i else False
            return SArr(self.shape, lambda *ix: z3.BoolVal(v))
        return self._bin(o, _arith(f))

    def __lt__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a < b, (True, False))

    def __le__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a <= b, (True, False))

    def __gt__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a > b, (False, True))

    def __ge__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a >= b, (False, True))

    def __eq__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a == b, (False, False))

    def __ne__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a != b, (True, True))

    def __and__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, lambda a, b: z3.And(a, b))

    __rand__ = __and__

    def __or__(self, o: tp.Any) -> tp.Any:
        return self._bin(o, lambda a, b: z3.Or(a, b))

    __ror__ = __or__

    # ---- reductions
    def _flat(self) -> "SArr":
        return self if self.ndim == 1 else self.ravel()

    def sum(self, axis: tp.Any = None, keepdims: bool = False, **k: tp.Any) -> tp.Any:
        return np_sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis: tp.Any = None) -> tp.Any:
        if axis is not None:
            n = self.shape[axis]
        else:
            n = self.size
        return self.sum(axis=axis) / n

    def any(self, axis: tp.Any = None) -> tp.Any:
        if _two(self, axis):
            n, m, f = _rows(self, axis)
            cm, j = isconc(m), z3.Int("axj")
            if cm is not None and cm <= 16:
                return SArr((n,), lambda i: z3.Or(*[_asbool(f(i, z3.IntVal(k))) for k in builtins.range(cm)]))
            return SArr((n,), lambda i: z3.Exists([j], z3.And(z3.And(j >= 0, j < toz(m)), _asbool(f(i, j)))))
        _ax(axis, self)
        a = self._flat()
        return sq.exists(a.shape[0], lambda i: SBool(_asbool(a.fn(toz(i)))))

    def all(self, axis: tp.Any = None) -> tp.Any:
        if _two(self, axis):
            n, m, f = _rows(self, axis)
            cm, j = isconc(m), z3.Int("axj")
            if cm is not None and cm <= 16:
                return SArr((n,), lambda i: z3.And(*[_asbool(f(i, z3.IntVal(k))) for k in builtins.range(cm)]))
            return SArr((n,), lambda i: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(m)), _asbool(f(i, j)))))
        _ax(axis, self)
        a = self._flat()
        return sq.forall(a.shape[0], lambda i: SBool(_asbool(a.fn(toz(i)))))

    def max(self, axis: tp.Any = None, keepdims: bool = False) -> tp.Any:
        return np_extremum(self, 1, axis, keepdims)

    def min(self, axis: tp.Any = None, keepdims: bool = False) -> tp.Any:
        return np_extremum(self, -1, axis, keepdims)

    def argmin(self, axis: tp.Any = None) -> tp.Any:
        return np_argext(self, -1, axis)

    def argmax(self, axis: tp.Any = None) -> tp.Any:
        return np_argext(self, 1, axis)

    def clip(self, a: tp.Any = None, b: tp.Any = None, **kw: tp.Any) -> tp.Any:
        if kw.get("out") is not None:
            raise Unsupported("clip(out=...)")
        return np_clip(self, kw.get("min", a), kw.get("max", b))

    def dot(self, o: tp.Any) -> tp.Any:
        return np_dot(self, o)

    __matmul__ = dot

    def fill(self, v: tp.Any) -> None:
        z = toz(v)
        self.fn = lambda *ix: z

    def std(self) -> tp.Any:
        raise Unsupported("std")


def _ax(axis: tp.Any, a: SArr) -> None:
    if axis is not None and not (a.ndim == 1 and axis in (0, -1)):
        raise Unsupported("axis")


def _asbool(e: tp.Any) -> tp.Any:
    return e if e.sort() == z3.BoolSort() else e != 0


def _num(e: tp.Any) -> tp.Any:
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if e.sort() == z3.BoolSort() else e


def _arith(f: tp.Any) -> tp.Any:
    def g(a: tp.Any, b: tp.Any) -> tp.Any:
        a, b = _num(a), _num(b)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return f(a, b)

    return g


def _div(a: tp.Any, b: tp.Any) -> tp.Any:
    ctx().trusted.add("elementwise array division: total real division (division by zero yields an arbitrary real, not nan/inf)")
    return toreal(_num(a)) / toreal(_num(b))


def _mod(a: tp.Any, b: tp.Any) -> tp.Any:
    a, b = _num(a), _num(b)
    if a.sort() == I and b.sort() == I:
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    a, b = toreal(a), toreal(b)
    return a - b * z3.ToReal(z3.ToInt(a / b))


def _fdiv(a: tp.Any, b: tp.Any) -> tp.Any:
    a, b = _num(a), _num(b)
    if a.sort() == I and b.sort() == I:
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(toreal(a) / toreal(b)))


def _dimeq(a: tp.Any, b: tp.Any) -> bool:
    ca, cb = isconc(a), isconc(b)
    if ca is not None and cb is not None:
        return ca == cb
    return toz(a).eq(toz(b)) or z3.is_true(z3.simplify(toz(a) == toz(b)))


def toarr(o: tp.Any) -> SArr:
    if type(o) is SArr:
        return o
    if type(o) is SBool:
        e0 = o.e
        return SArr((), lambda: e0)
    if isnum(o):
        if core.isbool(o):
            b = z3.BoolVal(bool(o))
            return SArr((), lambda: b)
        e = toz(o)
        return SArr((), lambda: e)
    if type(o) is SSeq:
        return np_array(o)
    if builtins.isinstance(o, (list, tuple)):
        return np_array(o)
    if type(o) is np.ndarray:
        arr = o
        if arr.ndim == 0:
            return toarr(arr.item())
        vals = [toz(x) if arr.dtype != bool else z3.BoolVal(bool(x)) for x in arr.ravel()]
        dims = arr.shape

        def fn(*ix: tp.Any) -> tp.Any:
            cs = [c.as_long() if z3.is_int_value(c := z3.simplify(x)) else None for x in ix]
            if builtins.all(c is not None for c in cs):
                k = 0
                for c, d in builtins.zip(cs, dims):
                    k = k * d + c  # type: ignore
                return vals[k] if 0 <= k < len(vals) else vals[0]
            k2: tp.Any = z3.IntVal(0)
            for x, d in builtins.zip(ix, dims):
                k2 = k2 * d + x
            if not vals:
                return z3.RealVal(0)
            if builtins.all(v.eq(vals[0]) for v in vals):
                return vals[0]
            r = vals[-1]
            for j in builtins.range(len(vals) - 2, -1, -1):
                r = z3.If(k2 == j, vals[j], r)
            return r

        return SArr(dims, fn)
    raise Unsupported(f"array from {type(o)}")


def _bshape(shapes: tp.List[tp.Any]) -> tp.List[tp.Any]:
    nd = builtins.max(len(s) for s in shapes)
    out: tp.List[tp.Any] = []
    for d in builtins.range(nd):
        dim: tp.Any = 1
        for s in shapes:
            p = d - (nd - len(s))
            if p < 0:
                continue
            v = s[p]
            if isconc(v) == 1:
                continue
            if isconc(dim) == 1:
                dim = v
            elif not _dimeq(dim, v):
                za, zb = toz(dim), toz(v)
                if ctx().decide(za == zb):
                    if isconc(v) is not None:
                        dim = v
                    continue
                if ctx().decide(zb == 1):
                    raise Unsupported("broadcast over a dimension that may be 1")
                if ctx().decide(za == 1):
                    raise Unsupported("broadcast over a dimension that may be 1")
                raise ValueError("operands could not be broadcast together")
        out.append(dim)
    return out


def _bfn(a: SArr, shape: tp.Sequence[tp.Any]) -> tp.Any:
    off = len(shape) - a.ndim
    ones = [isconc(s) == 1 and isconc(shape[off + d]) != 1 for d, s in builtins.enumerate(a.shape)]
    f = a.fn
    return lambda *ix: f(*[z3.IntVal(0) if one else x for one, x in builtins.zip(ones, ix[off:])])


def elementwise(f: tp.Any, *arrs: SArr) -> tp.Any:
    shape = _bshape([a.shape for a in arrs])
    fns = [_bfn(a, shape) for a in arrs]
    if not shape:
        return wrapz(f(*[g() for g in fns]))
    return SArr(shape, lambda *ix: f(*[g(*ix) for g in fns]))


def broadcast_to(a: tp.Any, shape: tp.Sequence[tp.Any]) -> SArr:
    a = toarr(a)
    sh = _bshape([a.shape, tuple(shape)])
    if len(sh) != len(shape) or not builtins.all(_dimeq(x, y) or isconc(y) is None for x, y in builtins.zip(sh, shape)):
        raise ValueError("could not broadcast input array")
    g = _bfn(a, tuple(shape))
    return SArr(tuple(shape), g)


# ------------------------------------------------------------------ numpy functions
def np_array(o: tp.Any, dtype: tp.Any = None, copy: tp.Any = None, ndmin: int = 0) -> tp.Any:
    if type(o) is SArr:
        r = o.copy()
    elif type(o) is SSeq:
        if isconc(o.n) is not None and isconc(o.n) <= 64:  # type: ignore
            return np_array(builtins.list(o), dtype=dtype)
        first = o.at(SInt(z3.Int("s!0")))
        if isnum(first):
            o = SSeq(o.n, o._get, o._cls)  # the values now
            r = SArr((o.n,), lambda i: toz(o.at(SInt(i) if not z3.is_int_value(i) else i.as_long())))
            if type(first) is SBool:
                r = SArr((o.n,), lambda i: tobool(o.at(SInt(i))))
        else:
            fa = toarr(first)

            def fn(i: tp.Any, *rest: tp.Any) -> tp.Any:
                return toarr(o.at(SInt(i) if not z3.is_int_value(i) else i.as_long())).fn(*rest)

            r = SArr((o.n,) + fa.shape, fn)
    elif builtins.isinstance(o, (list, tuple)):
        if not o:
            return np.array(o, dtype=dtype)
        elems = [toarr(x) for x in o]
        anyreal = builtins.any(x.sort() == R for x in elems)
        anynum = builtins.any(x.sort() != z3.BoolSort() for x in elems)
        sh = elems[0].shape
        for x in elems[1:]:
            if len(x.shape) != len(sh) or not builtins.all(_dimeq(p, q) for p, q in builtins.zip(x.shape, sh)):
                raise Unsupported("ragged array")

        efns = [x.fn for x in elems]  # the values now

        def co(e: tp.Any) -> tp.Any:
            if anynum:
                e = _num(e)
            return toreal(e) if anyreal else e

        def fn2(i: tp.Any, *rest: tp.Any) -> tp.Any:
            i = z3.simplify(i)
            if z3.is_int_value(i):
                k = i.as_long()
                return co(efns[k if 0 <= k < len(efns) else 0](*rest))
            r = co(efns[-1](*rest))
            for j in builtins.range(len(efns) - 2, -1, -1):
                r = z3.If(i == j, co(efns[j](*rest)), r)
            return r

        r = SArr((len(elems),) + tuple(sh), fn2)
    else:
        r = toarr(o)
        r = SArr(r.shape, r.fn)
    if dtype is not None and dtype is not object:
        r = r.astype(dtype)
    return r


def np_asarray(o: tp.Any, dtype: tp.Any = None, **k: tp.Any) -> tp.Any:
    """the array itself when it needs no conversion"""
    if type(o) is SArr:
        if dtype is None or dtype is object or o.dtype == np.dtype(dtype):
            return o
    return np_array(o, dtype=dtype)


def _rows(a: SArr, axis: int) -> tp.Tuple[tp.Any, tp.Any, tp.Any]:
    """2D array reduced along an axis: (number of results, reduced size, f(result index, reduced index))"""
    if axis < 0:
        axis += 2
    f = a.fn
    if axis == 1:
        return a.shape[0], a.shape[1], f
    return a.shape[1], a.shape[0], lambda i, j: f(j, i)


def _two(a: tp.Any, axis: tp.Any) -> bool:
    return axis is not None and type(a) is SArr and a.ndim == 2


def _pack(n: tp.Any, g: tp.Any, axis: int, keepdims: bool) -> SArr:
    if not keepdims:
        return SArr((n,), g)
    return SArr((n, 1), lambda i, j: g(i)) if axis in (1, -1) else SArr((1, n), lambda j, i: g(i))


def _partial_sums(a: SArr, axis: int) -> tp.Any:
    """S(i, k): sum of the k first terms of line i, with the inductive consequence of nonnegative terms"""
    c = ctx()
    i, j, k = z3.Ints("psi psj psk")
    t0 = a.fn(i, j)
    if not (z3.is_app(t0) and t0.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_const(x) for x in t0.children())):
        E = c.fresh_fn("cell", I, I, t0.sort())  # names the entries, for the triggers
        c.add(z3.ForAll([i, j], E(i, j) == t0, patterns=[E(i, j)]))
        if a._src is None:
            a._fn = lambda u, v: E(u, v)
        else:
            a = SArr(a.shape, lambda u, v: E(u, v))
    n, m, f = _rows(a, axis)
    t = lambda u, v: toreal(_num(f(u, v)))  # noqa
    zn, zm = toz(n), toz(m)
    memo = c.__dict__.setdefault("psums", {})
    key = (c.stack[-1] if c.stack else None, t(i, j).sexpr(), zn.sexpr(), zm.sexpr())
    if key in memo:
        return memo[key]
    S = memo[key] = c.fresh_fn("psum", I, I, R)
    inr = z3.And(i >= 0, i < zn)
    c.add(z3.ForAll([i], S(i, z3.IntVal(0)) == 0, patterns=[S(i, z3.IntVal(0))]))
    c.add(z3.ForAll([i, k], z3.Implies(z3.And(inr, k >= 0, k < zm), S(i, k + 1) == S(i, k) + t(i, k)), patterns=[f(i, k)]))
    q = z3.Solver()
    q.set("timeout", 3000)
    for fm in c.pc + c.qf:
        q.add(fm)
    q.add(inr, j >= 0, j < zm, t(i, j) < 0)
    if q.check() == z3.unsat:
        c.add(z3.ForAll([i, j, k], z3.Implies(z3.And(inr, j >= 0, j <= k, k <= zm), S(i, j) <= S(i, k)), patterns=[z3.MultiPattern(S(i, j), S(i, k))]))
        c.add(z3.ForAll([i, j], z3.Implies(z3.And(inr, j >= 0, j < zm), S(i, zm) >= t(i, j)), patterns=[f(i, j)]))
    return S


def np_sum(a: tp.Any, axis: tp.Any = None, keepdims: bool = False) -> tp.Any:
    a = toarr(a)
    if _two(a, axis):
        n, m, f = _rows(a, axis)
        cm = isconc(m)
        if cm is not None and cm <= 64:
            z = z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
            return _pack(n, lambda i: builtins.sum([_num(f(i, z3.IntVal(j))) for j in builtins.range(cm)], z), axis, keepdims)
        PS = _partial_sums(a, axis)
        return _pack(n, lambda i: PS(i, toz(m)), axis, keepdims)
    if axis is not None and a.ndim > 1:
        if a.ndim == 2:
            if axis in (1, -1):
                c = isconc(a.shape[1])
                f = a.fn
                if c is not None and c <= 64:
                    return SArr((a.shape[0],), lambda i: builtins.sum([_num(f(i, z3.IntVal(j))) for j in builtins.range(c)], z3.IntVal(0) if a.sort() != R else z3.RealVal(0)))
            if axis == 0:
                return np_sum(a.T, axis=1)
        raise Unsupported("sum over an axis")
    a = a._flat()
    f = a.fn
    c = isconc(a.shape[0])
    zero = z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
    if c is not None and c <= 64:
        r = zero
        for j in builtins.range(c):
            r = r + _num(f(z3.IntVal(j)))
        return wrapz(r)
    i = generic()
    t = _num(f(i))
    return sq.fold_sum(a.shape[0], t, i, wrapz(zero))(a.shape[0])


def _ext2(a: SArr, sign: int, axis: int) -> tp.Tuple[tp.Any, tp.Any, tp.Any]:
    """(number of lines, index of the first extremum of line i, extremum of line i)"""
    n, m, f0 = _rows(a, axis)
    f = lambda i, j: _num(f0(i, j))  # noqa
    cm = isconc(m)
    if cm is not None and cm <= 16:
        if cm == 0:
            raise ValueError("zero-size array to reduction operation")

        def both(i: tp.Any) -> tp.Any:
            r, best = z3.IntVal(0), f(i, z3.IntVal(0))
            for j in builtins.range(1, cm):
                x = f(i, z3.IntVal(j))
                b = x > best if sign > 0 else x < best
                r, best = z3.If(b, z3.IntVal(j), r), z3.If(b, x, best)
            return r, best

        return n, lambda i: both(i)[0], lambda i: both(i)[1]
    if not ctx().decide(toz(m) > 0):
        raise ValueError("zero-size array to reduction operation")
    W = ctx().fresh_fn("xarg", I, I)
    V = ctx().fresh_fn("xval", I, f(z3.IntVal(0), z3.IntVal(0)).sort())
    i, j = z3.Ints("xi xj")
    cm_ = lambda p, q: p >= q if sign > 0 else p <= q  # noqa
    cs_ = lambda p, q: p > q if sign > 0 else p < q  # noqa
    ctx().add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < toz(n)), z3.And(W(i) >= 0, W(i) < toz(m), V(i) == f(i, W(i)),
              z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(m)), z3.And(cm_(V(i), f(i, j)), z3.Implies(j < W(i), cs_(V(i), f(i, j)))))))), patterns=[W(i)]))
    ctx().add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < toz(n)), z3.And(W(i) >= 0, W(i) < toz(m), V(i) == f(i, W(i)),
              z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(m)), cm_(V(i), f(i, j)))))), patterns=[V(i)]))
    return n, lambda i: W(i), lambda i: V(i)


def np_extremum(a: tp.Any, sign: int, axis: tp.Any = None, keepdims: bool = False) -> tp.Any:
    a = toarr(a)
    if _two(a, axis):
        n, _, v = _ext2(a, sign, axis)
        return _pack(n, v, axis, keepdims)
    _ax(axis, a)
    a = a._flat()
    c = isconc(a.shape[0])
    if c is not None and c <= 64:
        if c == 0:
            raise ValueError("zero-size array to reduction operation")
        r = a.fn(z3.IntVal(0))
        for j in builtins.range(1, c):
            x = a.fn(z3.IntVal(j))
            r = z3.If(x > r if sign > 0 else x < r, x, r)
        return wrapz(r)
    n = toz(a.shape[0])
    if not ctx().decide(n > 0):
        raise ValueError("zero-size array to reduction operation")
    w, j = ctx().fresh("aext", I), z3.Int("ej")
    m = a.fn(w)
    ctx().add(z3.And(w >= 0, w < n))
    ctx().add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), m >= a.fn(j) if sign > 0 else m <= a.fn(j))))
    return wrapz(m)


def np_argext(a: tp.Any, sign: int, axis: tp.Any = None) -> tp.Any:
    a = toarr(a)
    if _two(a, axis):
        n, w, _ = _ext2(a, sign, axis)
        return _pack(n, w, axis, False)
    _ax(axis, a)
    a = a._flat()
    n = toz(a.shape[0])
    if not ctx().decide(n > 0):
        raise ValueError("attempt to get argmin of an empty sequence")
    c = isconc(a.shape[0])
    if c is not None and c <= 64:
        r, best = z3.IntVal(0), a.fn(z3.IntVal(0))
        for j in builtins.range(1, c):
            x = a.fn(z3.IntVal(j))
            b = x > best if sign > 0 else x < best
            r, best = z3.If(b, z3.IntVal(j), r), z3.If(b, x, best)
        return wrapz(r)
    w, j = ctx().fresh("aarg", I), z3.Int("ej")
    m = a.fn(w)
    ctx().add(z3.And(w >= 0, w < n))
    ctx().add(
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(m >= a.fn(j) if sign > 0 else m <= a.fn(j),
                  z3.Implies(j < w, m > a.fn(j) if sign > 0 else m < a.fn(j)))))
    )
    return wrapz(w)


def np_dot(a: tp.Any, b: tp.Any) -> tp.Any:
    a, b = toarr(a), toarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        c = isconc(a.shape[1])
        if c is not None and c <= 64:
            f, g = a.fn, b.fn
            return SArr((a.shape[0],), lambda i: builtins.sum([f(i, z3.IntVal(k)) * g(z3.IntVal(k)) for k in builtins.range(c)], z3.RealVal(0)))
        ctx().trusted.add("matrix-vector product with a symbolic inner size: an arbitrary array")
        uf = ctx().fresh_fn("matvec", I, R)
        return SArr((a.shape[0],), lambda i: uf(i))
    raise Unsupported("dot")


def np_minimum(a: tp.Any, b: tp.Any, **k: tp.Any) -> tp.Any:
    return elementwise(_arith(lambda x, y: z3.If(x <= y, x, y)), toarr(a), toarr(b))


def np_maximum(a: tp.Any, b: tp.Any, **k: tp.Any) -> tp.Any:
    return elementwise(_arith(lambda x, y: z3.If(x >= y, x, y)), toarr(a), toarr(b))


def np_clip(x: tp.Any, lo: tp.Any, hi: tp.Any, **k: tp.Any) -> tp.Any:
    if type(x) is SFp or type(lo) is SFp or type(hi) is SFp:
        raise Unsupported("clip of doubles")
    r = toarr(x)
    res: tp.Any = r
    if lo is not None and not _isinf(lo):
        res = np_maximum(res, lo)
    if hi is not None and not _isinf(hi):
        res = np_minimum(res, hi)
    return res if res is not r else r.copy()


def _isinf(v: tp.Any) -> bool:
    if issym(v):
        return False
    return bool(np.all(np.isinf(v)))


def np_where(c: tp.Any, a: tp.Any = None, b: tp.Any = None) -> tp.Any:
    if a is None:
        m = toarr(c)
        if z3.is_false(z3.simplify(m.fn(*[z3.Int(f"mk{d}") for d in builtins.range(m.ndim)]))):
            return tuple(SArr((0,), lambda i: z3.IntVal(0)) for _ in builtins.range(m.ndim))
        raise Unsupported("where(mask)")

    def f(x: tp.Any, p: tp.Any, q: tp.Any) -> tp.Any:
        if p.sort() != q.sort():
            p, q = toreal(_num(p)), toreal(_num(q))
        return z3.If(_asbool(x), p, q)

    return elementwise(f, toarr(c), toarr(a), toarr(b))


def _map(f: tp.Any) -> tp.Any:
    def g(x: tp.Any, **k: tp.Any) -> tp.Any:
        return elementwise(f, toarr(x))

    return g


def _uf(name: str) -> tp.Any:
    return z3.Function(name, R, R)


TANH, ATANH, ATAN, TAN, EXP, LOG = (_uf(n) for n in ("tanh", "arctanh", "arctan", "tan", "exp", "log"))
CDF, PPF, SIN, COS = (_uf(n) for n in ("normcdf", "normppf", "sin", "cos"))
PI = z3.RealVal("3.141592653589793115997963468544185161590576171875")  # the double np.pi


def _ax_tanh() -> None:
    x, y = z3.Reals("x y")
    c = ctx()
    c.trusted.add("tanh/arctanh: tanh in [-1, 1], increasing, mutually inverse (real arithmetic)")
    c.axiom("tanh", z3.ForAll([x], z3.And(TANH(x) > -1, TANH(x) < 1, ATANH(TANH(x)) == x), patterns=[TANH(x)]))
    c.axiom("atanh", z3.ForAll([x], z3.Implies(z3.And(x > -1, x < 1), TANH(ATANH(x)) == x), patterns=[ATANH(x)]))


def _ax_atan() -> None:
    x = z3.Real("x")
    c = ctx()
    c.trusted.add("arctan/tan: arctan in (-pi/2, pi/2), mutually inverse there (real arithmetic, pi = the double np.pi)")
    c.axiom("atan", z3.ForAll([x], z3.And(ATAN(x) > -PI / 2, ATAN(x) < PI / 2, TAN(ATAN(x)) == x), patterns=[ATAN(x)]))
    c.axiom("tan", z3.ForAll([x], z3.Implies(z3.And(x > -PI / 2, x < PI / 2), ATAN(TAN(x)) == x), patterns=[TAN(x)]))


def _ax_exp() -> None:
    x = z3.Real("x")
    c = ctx()
    c.trusted.add("exp/log: exp > 0, mutually inverse on their domains")
    c.axiom("exp", z3.ForAll([x], z3.And(EXP(x) > 0, LOG(EXP(x)) == x), patterns=[EXP(x)]))
    c.axiom("log", z3.ForAll([x], z3.Implies(x > 0, EXP(LOG(x)) == x), patterns=[LOG(x)]))
    c.axiom("log_sign", z3.ForAll([x], z3.Implies(x > 0, z3.And((LOG(x) > 0) == (x > 1), (LOG(x) == 0) == (x == 1))), patterns=[LOG(x)]))


def _ax_norm() -> None:
    x = z3.Real("x")
    c = ctx()
    c.trusted.add("scipy.stats.norm cdf/ppf: cdf in (0, 1), mutually inverse, above 1/2 exactly on positive numbers")
    c.axiom("cdf", z3.ForAll([x], z3.And(CDF(x) > 0, CDF(x) < 1, PPF(CDF(x)) == x), patterns=[CDF(x)]))
    c.axiom("cdf0", z3.ForAll([x], (CDF(x) > z3.Q(1, 2)) == (x > 0), patterns=[CDF(x)]))
    c.axiom("ppf0", z3.ForAll([x], z3.Implies(z3.And(x > 0, x < 1), (PPF(x) > 0) == (x > z3.Q(1, 2))), patterns=[PPF(x)]))
    c.axiom("ppf", z3.ForAll([x], z3.Implies(z3.And(x > 0, x < 1), CDF(PPF(x)) == x), patterns=[PPF(x)]))


def _trans(fn: tp.Any, ax: tp.Any) -> tp.Any:
    def g(x: tp.Any, **k: tp.Any) -> tp.Any:
        ax()
        return elementwise(lambda a: fn(toreal(_num(a))), toarr(x))

    return g


def np_log(x: tp.Any) -> tp.Any:
    _ax_exp()
    return elementwise(lambda a: LOG(toreal(a)), toarr(x))


def np_sqrt(x: tp.Any) -> tp.Any:
    core.sqrt_axioms()
    if isnum(x):
        return core.spow(x, 0.5)
    return elementwise(lambda a: core._SQRT(toreal(a)), toarr(x))


def np_power(a: tp.Any, b: tp.Any) -> tp.Any:
    if isnum(a) and isnum(b):
        return core.spow(a, b)
    if not issym(b) and isnum(b):
        fb = float(b)
        if fb == 0.5:
            return np_sqrt(a)
        if fb == int(fb) and 0 <= fb <= 8:
            if fb == 0:
                return elementwise(lambda x: z3.RealVal(1), toarr(a))
            r: tp.Any = a
            for _ in builtins.range(int(fb) - 1):
                r = a * r
            return r
    x, y = z3.Reals("x y")
    c = ctx()
    if not issym(a) and isnum(a) and 0 < float(a) < float("inf"):
        # a constant base: exp(x * log(b)), with the double log(b) that the code gets for the same constant
        _ax_exp()
        c.trusted.add("real power of a constant b: b**x == exp(x * q), with q the double log(b)")
        q = fractions.Fraction(float(np.log(float(a))))
        return elementwise(lambda e: EXP(toreal(_num(e)) * z3.Q(q.numerator, q.denominator)), toarr(b))
    P = core._POW
    c.trusted.add("real power: b**x > 0 for b > 0; b**0 == 1")
    c.axiom("pow_pos", z3.ForAll([x, y], z3.Implies(x > 0, P(x, y) > 0), patterns=[P(x, y)]))
    c.trusted.add("real power and logarithm: b**x == exp(x * log(b)) and log(b**x) == x * log(b) for b > 0; log has the sign of b - 1")
    _ax_exp()
    c.axiom("pow_log", z3.ForAll([x, y], z3.Implies(x > 0, z3.And(P(x, y) == EXP(y * LOG(x)), LOG(P(x, y)) == y * LOG(x))), patterns=[P(x, y)]))
    return elementwise(lambda p, q: P(toreal(_num(p)), toreal(_num(q))), toarr(a), toarr(b))


def np_isnan(x: tp.Any) -> tp.Any:
    if type(x) is SFp:
        return x.isnan()
    if isnum(x):
        return False
    return elementwise(lambda a: z3.BoolVal(False), toarr(x))


def np_isinf(x: tp.Any) -> tp.Any:
    if type(x) is SFp:
        return x.isinf()
    return np_isnan(x)


def np_isfinite(x: tp.Any) -> tp.Any:
    if type(x) is SFp:
        return core.lnot(core.lor(x.isnan(), x.isinf()))
    if isnum(x):
        return True
    return elementwise(lambda a: z3.BoolVal(True), toarr(x))


def np_zeros(shape: tp.Any, dtype: tp.Any = float, **k: tp.Any) -> tp.Any:
    return _const(shape, 0, dtype)


def np_empty(shape: tp.Any, dtype: tp.Any = float, **k: tp.Any) -> tp.Any:
    sh = shape if builtins.isinstance(shape, (tuple, list)) and not issym(shape) else (shape,)
    uf = ctx().fresh_fn("empty", *([I] * len(sh)), I if dtype in (int, np.int64) else R)
    return SArr(tuple(sh), lambda *ix: uf(*ix))


def np_ones(shape: tp.Any, dtype: tp.Any = float, **k: tp.Any) -> tp.Any:
    return _const(shape, 1, dtype)


def np_full(shape: tp.Any, v: tp.Any, dtype: tp.Any = None) -> tp.Any:
    sh = shape if builtins.isinstance(shape, (tuple, list)) and not issym(shape) else (shape,)
    z = toz(v)
    return SArr(tuple(sh), lambda *ix: z)


def _const(shape: tp.Any, v: int, dtype: tp.Any) -> tp.Any:
    sh = shape if builtins.isinstance(shape, (tuple, list)) and not issym(shape) else (shape,)
    if dtype in (bool, np.bool_):
        z: tp.Any = z3.BoolVal(bool(v))
    else:
        z = z3.IntVal(v) if dtype in (int, np.int64) else z3.RealVal(v)
    return SArr(tuple(sh), lambda *ix: z)


def np_arange(*a: tp.Any, **k: tp.Any) -> tp.Any:
    if len(a) == 1:
        return SArr((a[0],), lambda i: i)
    if len(a) == 2:
        lo = toz(a[0])
        n = toz(a[1]) - lo
        return SArr((mkint(z3.If(n > 0, n, 0)),), lambda i: lo + i)
    raise Unsupported("arange step")


def np_nonzero(x: tp.Any) -> tp.Any:
    a = toarr(x)
    if a.ndim != 1:
        raise Unsupported("nonzero in several dimensions")
    return (np_arange(a.shape[0])[elementwise(_asbool, a)],)


def np_concatenate(arrs: tp.Any, axis: tp.Any = 0) -> tp.Any:
    if type(arrs) is SSeq:
        raise Unsupported("concatenate over a symbolic sequence")
    parts = [toarr(x) for x in arrs]
    if axis != 0 or builtins.any(p.ndim != 1 for p in parts):
        if axis == 0 and builtins.all(p.ndim == 2 for p in parts):
            pass
        else:
            raise Unsupported("concatenate")
    r = parts[0]
    for p in parts[1:]:
        n0, f, g = toz(r.shape[0]), r.fn, p.fn

        def fn(i: tp.Any, *rest: tp.Any, n0: tp.Any = n0, f: tp.Any = f, g: tp.Any = g) -> tp.Any:
            a, b = f(i, *rest), g(i - n0, *rest)
            if a.sort() != b.sort():
                a, b = toreal(a), toreal(b)
            return z3.If(i < n0, a, b)

        r = SArr((mkint(n0 + toz(p.shape[0])),) + r.shape[1:], fn)
    return r


def np_roll(a: tp.Any, shift: tp.Any, axis: tp.Any = None) -> tp.Any:
    a = toarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll without axis")
        axis = 0
    axes = builtins.list(axis) if builtins.isinstance(axis, (tuple, list)) else [axis]
    shifts = builtins.list(shift) if builtins.isinstance(shift, (tuple, list)) and not issym(shift) else [shift]
    if len(shifts) != len(axes):
        raise Unsupported("roll with broadcast shifts")
    f, sh = a.fn, a.shape

    def g(*ix: tp.Any) -> tp.Any:
        jx = builtins.list(ix)
        for s_, x in builtins.zip(shifts, axes):
            jx[x] = (jx[x] - toz(s_)) % toz(sh[x])
        return f(*jx)

    return SArr(sh, g)


def np_all(x: tp.Any, axis: tp.Any = None) -> tp.Any:
    if type(x) in (SBool, SReal, SInt):
        return x != 0 if type(x) is not SBool else x
    return toarr(x).all(axis=axis)


def np_any(x: tp.Any, axis: tp.Any = None) -> tp.Any:
    if type(x) in (SBool, SReal, SInt):
        return x != 0 if type(x) is not SBool else x
    return toarr(x).any(axis=axis)


def np_array_equal(a: tp.Any, b: tp.Any) -> tp.Any:
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        return False
    for p, q in builtins.zip(a.shape, b.shape):
        if not (SInt(toz(p)) == SInt(toz(q))):
            return False
    return (a == b).all()


def np_isclose_unsup(*a: tp.Any, **k: tp.Any) -> tp.Any:
    raise Unsupported("tolerance comparison")


def np_prod(a: tp.Any, axis: tp.Any = None) -> tp.Any:
    if builtins.isinstance(a, (tuple, list)) and not issym(a):
        r: tp.Any = 1
        for x in a:
            r = r * x
        return r
    a = toarr(a)
    c = isconc(a.shape[0])
    if a.ndim == 1 and c is not None:
        r = 1
        for i in builtins.range(c):
            r = r * a.at(i)
        return r
    if a.ndim == 1:
        return _fold_prod(a)
    raise Unsupported("prod")


def _fold_prod(a: SArr) -> tp.Any:
    """product of a symbolic number of factors: recursion, and its inductive consequences for factors in [-1, 1]"""
    c = ctx()
    i = generic()
    term, n = toreal(_num(a.fn(i))), zlen(a.shape[0])
    P = c.fresh_fn("prod", I, R)
    at = lambda t: z3.substitute(term, (i, t))  # noqa
    k = z3.Int("pk")
    c.add(P(z3.IntVal(0)) == 1)
    c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), P(k + 1) == P(k) * at(k)), patterns=[P(k)]))
    q = z3.Solver()
    q.set("timeout", 3000)
    for f in c.pc + c.qf:
        q.add(f)
    q.add(i >= 0, i < n, z3.Or(term > 1, term < -1))
    if q.check() == z3.unsat:
        c.add(z3.And(P(n) <= 1, P(n) >= -1))
    w = c.fresh("wit", I)
    c.add(z3.Implies(P(n) != 1, z3.And(w >= 0, w < n, at(w) != 1)))
    return wrapz(P(n))


def np_linspace(a: tp.Any, b: tp.Any, num: tp.Any = 50, **k: tp.Any) -> tp.Any:
    a, b, n = toreal(toz(a)), toreal(toz(b)), toz(num)
    return SArr((num,), lambda i: z3.If(n == 1, a, a + z3.ToReal(i) * (b - a) / z3.ToReal(n - 1)))


def np_qr(a: tp.Any, **k: tp.Any) -> tp.Any:
    c = ctx()
    c.trusted.add("numpy.linalg.qr: the first factor is orthogonal")
    q, r = (c.fresh_fn(x, I, I, R) for x in ("qr_q", "qr_r"))
    Q = SArr(a.shape, lambda i, j: q(i, j))
    Q.qr_of = a  # type: ignore
    return Q, SArr(a.shape, lambda i, j: r(i, j))


def _ax_cos() -> None:
    x = z3.Real("x")
    c = ctx()
    c.trusted.add("cos: in [-1, 1], and 1 at 0")
    c.axiom("cos", z3.ForAll([x], z3.And(COS(x) >= -1, COS(x) <= 1), patterns=[COS(x)]))
    c.axiom("cos0", COS(z3.RealVal(0)) == 1)


def np_floor(x: tp.Any) -> tp.Any:
    return elementwise(lambda a: z3.ToReal(z3.ToInt(toreal(a))), toarr(x))


def np_ceil(x: tp.Any) -> tp.Any:
    return elementwise(lambda a: z3.ToReal(-z3.ToInt(-toreal(a))), toarr(x))


def np_round(x: tp.Any, decimals: int = 0, **k: tp.Any) -> tp.Any:
    if decimals:
        raise Unsupported("round decimals")

    def f(e: tp.Any) -> tp.Any:
        if e.sort() == I:
            return e
        fl = z3.ToInt(e)
        d = e - z3.ToReal(fl)
        h = z3.RealVal("1/2")
        return z3.ToReal(z3.If(d < h, fl, z3.If(d > h, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))

    return elementwise(f, toarr(x))


def np_size(x: tp.Any) -> tp.Any:
    return toarr(x).size


def np_cumsum(x: tp.Any, axis: tp.Any = None) -> tp.Any:
    if _two(x, axis):
        n, m, f = _rows(x, axis)
        cm = isconc(m)
        if axis not in (1, -1):
            raise Unsupported("cumsum axis")
        PS = _partial_sums(x, axis)
        return SArr(x.shape, lambda i, k: PS(i, k + 1))
    a = toarr(x)._flat()
    c = isconc(a.shape[0])
    if c is not None and c <= 32:
        out, r = [], z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
        for j in builtins.range(c):
            r = r + a.fn(z3.IntVal(j))
            out.append(wrapz(r))
        return np_array(out)
    i = generic()
    S = sq.fold_sum(a.shape[0], _num(a.fn(i)), i, wrapz(z3.RealVal(0)))
    return SArr(a.shape, lambda k: toz(S(mkint(k + 1))))


def np_searchsorted(a: tp.Any, v: tp.Any, side: str = "left") -> tp.Any:
    a = toarr(a)
    if not isnum(v):
        raise Unsupported("searchsorted of an array")
    zv = toreal(toz(v))
    n = toz(a.shape[0])
    w, j = ctx().fresh("ss", I), z3.Int("ssj")
    ctx().trusted.add("numpy.searchsorted on a sorted array: number of entries < v (left) / <= v (right)")
    lt = (lambda e: e < zv) if side == "left" else (lambda e: e <= zv)
    ctx().add(z3.And(w >= 0, w <= n))
    f = a.fn
    cn = isconc(a.shape[0])
    if cn is not None and cn <= 32:
        for k in builtins.range(cn):
            kk = z3.IntVal(k)
            ctx().add(z3.Implies(kk < w, lt(f(kk))))
            ctx().add(z3.Implies(kk >= w, z3.Not(lt(f(kk)))))
    else:
        ctx().add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), lt(f(j)))))
        ctx().add(z3.ForAll([j], z3.Implies(z3.And(j >= w, j < n), z3.Not(lt(f(j))))))
        ctx().add(z3.Implies(w > 0, lt(f(w - 1))))
        ctx().add(z3.Implies(w < n, z3.Not(lt(f(w)))))
    return SInt(w)


def np_argsort(x: tp.Any, **k: tp.Any) -> tp.Any:
    a = toarr(x)._flat()
    s = SSeq(a.shape[0], lambda i: i, list)
    r = sq.sorted_seq(s, lambda i: a.at(i))
    _, pi, inv, _ = r.perm  # type: ignore
    return SArr(a.shape, lambda i: pi(i))


def np_sort(x: tp.Any, **k: tp.Any) -> tp.Any:
    a = toarr(x)._flat()
    g = np_argsort(a)
    return SArr(a.shape, lambda i: a.fn(g.fn(i)))


def np_zeros_like(x: tp.Any, dtype: tp.Any = None) -> tp.Any:
    a = toarr(x)
    return np_zeros(a.shape, dtype or (float if a.sort() == R else int))


def np_diff(x: tp.Any) -> tp.Any:
    a = toarr(x)
    return a[1:] - a[:-1]


def np_mean(x: tp.Any, axis: tp.Any = None) -> tp.Any:
    return toarr(x).mean(axis=axis)


def np_norm(x: tp.Any, **k: tp.Any) -> tp.Any:
    a = toarr(x)
    return np_sqrt(np_sum(a * a))


def np_quantile(a: tp.Any, q: tp.Any, axis: tp.Any = None, method: str = "linear", **k: tp.Any) -> tp.Any:
    if method != "lower" or axis is not None or k:
        raise Unsupported(f"quantile({method})")
    if not (q >= 0) or not (q <= 1):
        raise ValueError("Quantiles must be in the range [0, 1]")
    a = toarr(a)
    n = a.shape[0]
    s = sq.sorted_seq(a.toseq(), None)
    pos = core.wrapnum(q) * (n - 1)
    idx = core.SInt(z3.ToInt(toreal(toz(pos))))
    c = ctx()
    c.trusted.add("numpy.quantile(method='lower'): element of rank floor(q * (n - 1)) of the sorted values")
    c.quantiles.append((s, idx))
    return s.at(idx)


NP: tp.Dict[str, tp.Any] = {
    "quantile": np_quantile, "roll": np_roll,
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "copy": lambda x: toarr(x).copy(),
    "sum": np_sum, "minimum": np_minimum, "maximum": np_maximum, "clip": np_clip, "where": np_where,
    "tanh": _trans(TANH, _ax_tanh), "arctanh": _trans(ATANH, _ax_tanh), "arctan": _trans(ATAN, _ax_atan),
    "tan": _trans(TAN, _ax_atan), "exp": _trans(EXP, _ax_exp), "log": np_log, "sqrt": np_sqrt, "power": np_power,
    "isnan": np_isnan, "isinf": np_isinf, "isfinite": np_isfinite, "abs": _map(lambda a: z3.If(a >= 0, a, -a)),
    "absolute": _map(lambda a: z3.If(a >= 0, a, -a)),
    "fabs": _map(lambda a: z3.If(a >= 0, toreal(a), -toreal(a))),
    "zeros": np_zeros, "ones": np_ones, "full": np_full, "arange": np_arange, "concatenate": np_concatenate,
    "all": np_all, "any": np_any, "array_equal": np_array_equal, "prod": np_prod, "floor": np_floor, "ceil": np_ceil,
    "round": np_round, "rint": np_round, "around": np_round, "max": lambda a, axis=None, keepdims=False: np_extremum(a, 1, axis, keepdims),
    "min": lambda a, axis=None, keepdims=False: np_extremum(a, -1, axis, keepdims), "amax": lambda a, axis=None, keepdims=False: np_extremum(a, 1, axis, keepdims),
    "amin": lambda a, axis=None, keepdims=False: np_extremum(a, -1, axis, keepdims), "argmin": lambda a, axis=None: np_argext(a, -1, axis),
    "argmax": lambda a, axis=None: np_argext(a, 1, axis), "dot": np_dot, "size": np_size, "cumsum": np_cumsum,
    "searchsorted": np_searchsorted, "argsort": np_argsort, "sort": np_sort, "zeros_like": np_zeros_like,
    "diff": np_diff, "mean": np_mean, "square": lambda x: x * x, "empty": np_empty,
    "ndim": lambda x: toarr(x).ndim, "shape": lambda x: toarr(x).shape, "float64": lambda x: x,
    "ones_like": lambda x, dtype=None: np_ones(toarr(x).shape, dtype or float),
    "broadcast_to": broadcast_to, "ravel": lambda x: toarr(x).ravel(), "reshape": lambda x, *s: toarr(x).reshape(*s),
    "count_nonzero": lambda x: np_sum(elementwise(lambda a: z3.If(_asbool(a), z3.IntVal(1), z3.IntVal(0)), toarr(x))),
    "logical_and": lambda a, b: elementwise(lambda x, y: z3.And(_asbool(x), _asbool(y)), toarr(a), toarr(b)),
    "logical_or": lambda a, b: elementwise(lambda x, y: z3.Or(_asbool(x), _asbool(y)), toarr(a), toarr(b)),
    "isposinf": lambda x: elementwise(lambda a: z3.BoolVal(False), toarr(x)),
    "isneginf": lambda x: elementwise(lambda a: z3.BoolVal(False), toarr(x)),
    "sign": _map(lambda a: z3.If(_num(a) > 0, z3.IntVal(1), z3.If(_num(a) < 0, z3.IntVal(-1), z3.IntVal(0)))),
    "logical_not": _map(lambda a: z3.Not(_asbool(a))),
    "less": lambda a, b: toarr(a) < b, "greater": lambda a, b: toarr(a) > b,
    "less_equal": lambda a, b: toarr(a) <= b, "greater_equal": lambda a, b: toarr(a) >= b,
    "add": lambda a, b: toarr(a) + b, "subtract": lambda a, b: toarr(a) - b, "multiply": lambda a, b: toarr(a) * b,
    "divide": lambda a, b: toarr(a) / b, "negative": lambda a: -toarr(a),
    "linspace": np_linspace, "linalg.qr": np_qr, "cos": _trans(COS, _ax_cos), "sin": _trans(SIN, lambda: None),
    "linalg.norm": np_norm, "sign": _map(lambda a: z3.If(a > 0, z3.IntVal(1), z3.If(a < 0, z3.IntVal(-1), z3.IntVal(0)))),
    "nonzero": np_nonzero, "atleast_1d": lambda x: toarr(x) if toarr(x).ndim else toarr(x).ravel(),
    "cdf": _trans(CDF, _ax_norm), "ppf": _trans(PPF, _ax_norm),
}


def _noout(f: tp.Any) -> tp.Any:
    @functools.wraps(f)
    def g(*a: tp.Any, **k: tp.Any) -> tp.Any:
        if builtins.any(k.get(x) is not None for x in ("out", "where", "initial")):
            raise Unsupported("numpy function with out/where/initial")
        return f(*a, **k)

    return g


NP = {name: _noout(f) for name, f in NP.items()}
