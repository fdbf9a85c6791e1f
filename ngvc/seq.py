"""Symbolic sequences, symbolic loops (automatic summaries or contract invariants), lowered-code runtime."""
import builtins
import copy
import types
import typing as tp
import z3
import numpy as np
from . import core
from .core import (
    Sym, SBool, SInt, SReal, SFp, SNum, Unsupported, Infeasible, NEXT, BREAK, ctx, issym, toz, toreal, tobool,
    wrapz, isnum, ite, land,
)

MAXUNROLL = 64


class Poison:
    """a loop-carried value the summary does not track: reading it leaves the subset"""

    _ngvc_sym = True

    def __getattr__(self, n: str) -> tp.Any:
        raise Unsupported("loop-carried value without an invariant")

    def _bad(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        raise Unsupported("loop-carried value without an invariant")

    __bool__ = __call__ = __add__ = __radd__ = __sub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __iter__ = __getitem__ = __setitem__ = __len__ = __contains__ = __eq__ = __ne__ = __neg__ = __truediv__ = _bad
    __hash__ = None  # type: ignore


def zlen(n: tp.Any) -> tp.Any:
    return toz(n)


def isconc(n: tp.Any) -> tp.Optional[int]:
    if builtins.isinstance(n, (int, np.integer)) and not issym(n):
        return int(n)
    if type(n) is SInt:
        e = z3.simplify(n.e)
        if z3.is_int_value(e):
            return e.as_long()
    return None


def mkint(e: tp.Any) -> tp.Any:
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


class SSeq:
    """immutable sequence of symbolic length"""

    _ngvc_sym = True
    __array_ufunc__ = None

    def __init__(self, n: tp.Any, get: tp.Callable[[tp.Any], tp.Any], cls: type = list) -> None:
        self.n = n
        self._get = get
        self._cls = cls

    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return self._cls

    def at(self, i: tp.Any) -> tp.Any:
        return self._get(i)

    def __getitem__(self, i: tp.Any) -> tp.Any:
        if builtins.isinstance(i, slice):
            return self._slice(i)
        n = SInt(zlen(self.n))
        if type(i) is not SInt:
            i = int(i)
            if i < 0:
                if n + i < 0:
                    raise IndexError("index out of range")
                return self.at(mkint((n + i).e))
            if n <= i:
                raise IndexError("index out of range")
            return self.at(i)
        if i < 0:
            i = n + i
            if i < 0:
                raise IndexError("index out of range")
        if i >= n:
            raise IndexError("index out of range")
        return self.at(i)

    def _slice(self, s: slice) -> "SSeq":
        n = zlen(self.n)
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                return SSeq(self.n, lambda k: self.at(mkint(n - 1 - toz(k))), self._cls)
            raise Unsupported("slice step")

        def norm(v: tp.Any, default: tp.Any) -> tp.Any:
            if v is None:
                return default
            z = toz(v)
            z = z3.If(z < 0, z3.If(z + n < 0, 0, z + n), z3.If(z > n, n, z))
            return z3.simplify(z)

        a, b = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
        m = z3.simplify(z3.If(b > a, b - a, 0))
        return SSeq(mkint(m), lambda k: self.at(mkint(a + toz(k))), self._cls)

    def __len__(self) -> int:
        c = isconc(self.n)
        if c is not None:
            return c
        raise Unsupported("native len() of a symbolic sequence")

    def __iter__(self) -> tp.Any:
        c = isconc(self.n)
        if c is not None and c <= MAXUNROLL:
            return builtins.iter([self.at(k) for k in builtins.range(c)])
        raise Unsupported("native iteration over a symbolic sequence")

    def __bool__(self) -> bool:
        return bool(SInt(zlen(self.n)) > 0)

    def __contains__(self, x: tp.Any) -> bool:
        return bool(exists(self.n, lambda i: self.at(i) == x))

    def __add__(self, o: tp.Any) -> tp.Any:
        if type(o).__name__ == "SArr":  # list + array: elementwise
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o: tp.Any) -> tp.Any:
        return concat(o, self)

    def copy(self) -> "SSeq":
        return SSeq(self.n, self._get, self._cls)

    def append(self, x: tp.Any) -> None:
        if self._cls is not list:
            raise AttributeError("append")
        r = concat(self.copy(), [x])
        self.n, self._get = r.n, r._get

    def extend(self, o: tp.Any) -> None:
        r = concat(self.copy(), o)
        self.n, self._get = r.n, r._get

    def sort(self, key: tp.Any = None, reverse: bool = False) -> None:
        n = isconc(self.n)
        if n is not None and n <= MAXUNROLL:
            items = sorted([self._get(i) for i in range(n)], key=key, reverse=reverse)
            self.n, self._get = n, lambda k: items[k] if not issym(k) else seq(items).at(k)
            return
        r = sorted_seq(SSeq(self.n, self._get, list), key if key is not None else (lambda x: x), reverse)
        self.n, self._get = r.n, r._get

    def pop(self, i: tp.Any = -1) -> tp.Any:
        n = SInt(zlen(self.n))
        if n <= 0:
            raise IndexError("pop from empty list")
        g = self._get
        if isconc(i) == -1:
            v = self[-1]
            self.n = mkint(n.e - 1)
            return v
        if isconc(i) == 0:
            v = self[0]
            self.n = mkint(n.e - 1)
            self._get = lambda k: g(mkint(toz(k) + 1))
            return v
        raise Unsupported("pop at symbolic index")

    popleft = lambda self: self.pop(0)

    def index(self, x: tp.Any) -> tp.Any:
        raise Unsupported("index")

    def __setitem__(self, i: tp.Any, v: tp.Any) -> None:
        n = SInt(zlen(self.n))
        i = core.wrapnum(i)
        if i < 0:
            i = n + i
        if i < 0 or i >= n:
            raise IndexError("assignment index out of range")
        g = self._get

        def get(k: tp.Any) -> tp.Any:
            if core.wrapnum(k) == i:  # forks on use
                return v
            return g(k)

        def getn(k: tp.Any) -> tp.Any:
            a = g(k)
            if isnum(a) and isnum(v):
                return ite(core.wrapnum(k) == i, v, a)
            return get(k)

        self._get = getn

    def __eq__(self, o: tp.Any) -> tp.Any:
        if not builtins.isinstance(o, (list, tuple)):
            return False
        o = seq(o)
        return land(
            SBool(zlen(self.n) == zlen(o.n)), forall(self.n, lambda i: self.at(i) == o.at(i))
        )

    def __ne__(self, o: tp.Any) -> tp.Any:
        return core.lnot(self.__eq__(o))

    __hash__ = None  # type: ignore

    def __repr__(self) -> str:
        return f"<SSeq {self.n}>"


def seq(o: tp.Any) -> SSeq:
    if type(o) is SSeq:
        return o
    if type(o).__name__ == "SArr":
        return o.toseq()
    o = builtins.list(o)

    def get(k: tp.Any) -> tp.Any:
        c = isconc(k)
        if c is not None:
            return o[c]
        if not o:
            raise Unsupported("element of an empty list")
        if builtins.all(isnum(x) for x in o):
            r = o[-1]
            for j in builtins.range(len(o) - 2, -1, -1):
                r = ite(SBool(toz(k) == j), o[j], r)
            return r
        for j in builtins.range(len(o) - 1):
            if ctx().decide(toz(k) == j):
                return o[j]
        return o[-1]

    return SSeq(len(o), get, list)


class SMap:
    """dict built by a comprehension over a symbolic sequence (the keys are proved distinct)"""

    def __init__(self, pairs: SSeq) -> None:
        self.pairs = pairs

    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return dict

    def _ngvc_len(self) -> tp.Any:
        return self.pairs.n

    def _ngvc_iter(self) -> tp.Any:
        return self.keys()

    def __bool__(self) -> bool:
        return bool(self.pairs)

    def items(self) -> tp.Any:
        return self.pairs

    def keys(self) -> tp.Any:
        return SSeq(self.pairs.n, lambda k: self.pairs.at(k)[0], list)

    def values(self) -> tp.Any:
        return SSeq(self.pairs.n, lambda k: self.pairs.at(k)[1], list)

    def _bad(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        raise Unsupported("operation on a symbolic dict")

    __getitem__ = __setitem__ = __delitem__ = __contains__ = pop = get = update = __eq__ = _bad  # type: ignore
    __hash__ = None  # type: ignore


def concat(a: tp.Any, b: tp.Any) -> SSeq:
    a, b = seq(a), seq(b)
    na = zlen(a.n)

    def get(k: tp.Any) -> tp.Any:
        zk = toz(k)
        inb = z3.simplify(zk < na)
        if z3.is_true(inb):
            return a.at(k)
        if z3.is_false(inb):
            return b.at(mkint(zk - na))
        try:
            va, vb = a.at(k), b.at(mkint(zk - na))
            if isnum(va) and isnum(vb):
                return ite(SBool(inb), va, vb)
        except Unsupported:
            pass
        if ctx().decide(inb):
            return a.at(k)
        return b.at(mkint(zk - na))

    return SSeq(mkint(na + zlen(b.n)), get, list)


# ------------------------------------------------------------------ quantifiers over closures
_gen = [0]


def generic() -> tp.Any:
    _gen[0] += 1
    return z3.Int(f"gi!{_gen[0]}")


def truth(v: tp.Any) -> tp.Any:
    """z3 truth value of a python value (may fork)"""
    if builtins.isinstance(v, (SBool, SNum)) or isnum(v):
        return tobool(v)
    return z3.BoolVal(bool(v))


def pure(fn: tp.Callable[[], tp.Any]) -> tp.Any:
    """boolean value of a side-effect free closure as ONE formula"""
    outs = ctx().merge(lambda: truth(fn()))
    terms = []
    for cond, kind, v in outs:
        if kind == "exc":
            raise Unsupported(f"exception under a quantifier: {v!r}")
        terms.append(z3.And(cond, v))
    return z3.Or(*terms) if terms else z3.BoolVal(False)


def purenum(fn: tp.Callable[[], tp.Any]) -> tp.Any:
    outs = ctx().merge(fn)
    if not outs:
        raise Infeasible()
    r: tp.Any = None
    for cond, kind, v in outs:
        if kind == "exc":
            raise Unsupported(f"exception in a merged expression: {v!r}")
        if r is None:
            r = v
        else:
            r = ite(SBool(cond), v, r) if (issym(v) or issym(r) or isnum(v)) else _same(v, r)
    return r


def _same(a: tp.Any, b: tp.Any) -> tp.Any:
    if a is b:
        return a
    raise Unsupported("cannot merge values")


def _guarded(n: tp.Any, fn: tp.Callable[[tp.Any], tp.Any]) -> tp.Tuple[tp.Any, tp.Any, tp.Any]:
    i = generic()
    rng = z3.And(i >= 0, i < zlen(n))
    c = ctx()
    before = c.fresh_n
    c.solver.push()
    npc = len(c.pc)
    c.add(rng)
    try:
        body = pure(lambda: fn(SInt(i)))
    finally:
        c.solver.pop()
        del c.pc[npc:]
    _no_fresh(body, before)
    return i, rng, body


def _no_fresh(e: tp.Any, before: int) -> None:
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            nm = x.decl().name()
            if "!" in nm and not nm.startswith("gi!"):
                try:
                    if int(nm.rsplit("!", 1)[1]) > before:
                        raise Unsupported("fresh symbol escapes a generic element")
                except ValueError:
                    pass
        todo.extend(x.children())


def forall(n: tp.Any, fn: tp.Callable[[tp.Any], tp.Any]) -> tp.Any:
    c = isconc(n)
    if c is not None and c <= MAXUNROLL:
        return land(*[SBool(pure(lambda k=k: fn(k))) for k in builtins.range(c)]) if c else True
    i, rng, body = _guarded(n, fn)
    if z3.is_true(z3.simplify(body)):
        return True
    return SBool(z3.ForAll([i], z3.Implies(rng, body)))


def exists(n: tp.Any, fn: tp.Callable[[tp.Any], tp.Any]) -> tp.Any:
    c = isconc(n)
    if c is not None and c <= MAXUNROLL:
        return core.lor(*[SBool(pure(lambda k=k: fn(k))) for k in builtins.range(c)]) if c else False
    i, rng, body = _guarded(n, fn)
    return SBool(z3.Exists([i], z3.And(rng, body)))


# ------------------------------------------------------------------ derived sequences
def filtered(s: SSeq, cond: tp.Callable[[tp.Any], tp.Any], elt: tp.Callable[[tp.Any], tp.Any]) -> SSeq:
    """elements elt(s[i]) of the i with cond(s[i]), in order"""
    c = ctx()
    n = zlen(s.n)
    i, rng, body = _guarded(s.n, lambda k: cond(s.at(k)))
    if z3.is_true(z3.simplify(body)):
        r = SSeq(s.n, lambda k: elt(s.at(k)), list)
        r.filt = (s, lambda t: t, lambda t: t, lambda t: z3.BoolVal(True))  # type: ignore
        return r
    m = c.fresh("flen", z3.IntSort())
    sig = c.fresh_fn("fidx", z3.IntSort(), z3.IntSort())
    rho = c.fresh_fn("fpos", z3.IntSort(), z3.IntSort())
    a, b = z3.Ints("fa fb")
    c.add(m >= 0)
    c.add(m <= n)
    at = lambda t: z3.substitute(body, (i, t))  # noqa
    c.add(
        z3.ForAll(
            [a],
            z3.Implies(
                z3.And(a >= 0, a < m), z3.And(sig(a) >= 0, sig(a) < n, at(sig(a)), rho(sig(a)) == a)
            ),
            patterns=[sig(a)],
        )
    )
    c.add(
        z3.ForAll(
            [a, b],
            z3.Implies(z3.And(a >= 0, a < b, b < m), sig(a) < sig(b)),
            patterns=[z3.MultiPattern(sig(a), sig(b))],
        )
    )
    c.add(
        z3.ForAll(
            [i], z3.Implies(z3.And(rng, body), z3.And(rho(i) >= 0, rho(i) < m, sig(rho(i)) == i)), patterns=_pats(body, i) + [rho(i)]
        )
    )
    # emptiness, stated so that it is usable without instantiation
    c.add(z3.Or(m > 0, z3.ForAll([i], z3.Implies(rng, z3.Not(body)))))

    def get(k: tp.Any) -> tp.Any:
        zk = toz(k)
        c2 = ctx()
        if c2 is c:
            c.add(z3.Implies(z3.And(zk >= 0, zk < m), z3.And(sig(zk) >= 0, sig(zk) < n, at(sig(zk)), rho(sig(zk)) == zk)))
        return elt(s.at(SInt(sig(zk))))

    r = SSeq(SInt(m), get, list)
    r.filt = (s, sig, rho, at)  # type: ignore
    return r


def _pats(body: tp.Any, i: tp.Any) -> tp.List[tp.Any]:
    """single-variable uninterpreted applications f(i) usable as triggers"""
    out: tp.Dict[str, tp.Any] = {}
    todo, seen = [body], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1:
            if x.arg(0).eq(i):
                out.setdefault(x.decl().name(), x)
        todo.extend(x.children())
    return list(out.values())[:2]


def sorted_seq(s: SSeq, key: tp.Any, reverse: bool = False) -> SSeq:
    c = ctx()
    n = zlen(s.n)
    pi = c.fresh_fn("perm", z3.IntSort(), z3.IntSort())
    inv = c.fresh_fn("pinv", z3.IntSort(), z3.IntSort())
    a, b = z3.Ints("pa pb")
    g = generic()
    before = c.fresh_n
    c.solver.push()
    npc = len(c.pc)
    c.add(z3.And(g >= 0, g < n))
    try:
        kv = purenum(lambda: (key or (lambda x: x))(s.at(SInt(g))))
    finally:
        c.solver.pop()
        del c.pc[npc:]
    if not isnum(kv):
        raise Unsupported("sort key")
    kz = toz(kv)
    _no_fresh(kz, before)
    at = lambda t: z3.substitute(kz, (g, t))  # noqa
    c.add(
        z3.ForAll(
            [a],
            z3.Implies(z3.And(a >= 0, a < n), z3.And(pi(a) >= 0, pi(a) < n, inv(pi(a)) == a)),
            patterns=[pi(a)],
        )
    )
    c.add(
        z3.ForAll(
            [a],
            z3.Implies(z3.And(a >= 0, a < n), z3.And(inv(a) >= 0, inv(a) < n, pi(inv(a)) == a)),
            patterns=[inv(a)] + _pats(kz, g) and [inv(a)],
        )
    )
    le = at(pi(b)) <= at(pi(a)) if reverse else at(pi(a)) <= at(pi(b))
    c.add(
        z3.ForAll(
            [a, b],
            z3.Implies(z3.And(a >= 0, a <= b, b < n), le),
            patterns=[z3.MultiPattern(pi(a), pi(b))],
        )
    )
    c.trusted.add("builtin sorted(): a permutation ordered by the key")
    r = SSeq(s.n, lambda k: s.at(SInt(pi(toz(k)))), list)
    r.perm = (s, pi, inv, at)  # type: ignore
    return r


def extremum(s: SSeq, key: tp.Any, sign: int) -> tp.Any:
    """builtin min/max over a non-empty sequence: the first extremal element"""
    c = ctx()
    n = zlen(s.n)
    if not ctx().decide(n > 0):
        raise ValueError("min()/max() arg is an empty sequence")
    w = c.fresh("best", z3.IntSort())
    g = generic()
    before = c.fresh_n
    c.solver.push()
    npc = len(c.pc)
    c.add(z3.And(g >= 0, g < n))
    try:
        kv = purenum(lambda: (key or (lambda x: x))(s.at(SInt(g))))
    finally:
        c.solver.pop()
        del c.pc[npc:]
    kz = toz(kv)
    _no_fresh(kz, before)
    at = lambda t: z3.substitute(kz, (g, t))  # noqa
    c.add(z3.And(w >= 0, w < n))
    j = z3.Int("mj")
    le = at(w) <= at(j) if sign < 0 else at(w) >= at(j)
    lt = at(w) < at(j) if sign < 0 else at(w) > at(j)
    c.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(le, z3.Implies(j < w, lt)))))
    c.trusted.add("builtin min()/max(): first extremal element")
    return s.at(SInt(w))


def fold_sum(n: tp.Any, term: tp.Any, i: tp.Any, start: tp.Any) -> tp.Callable[[tp.Any], tp.Any]:
    """partial sums S(k) = start + sum_{j<k} term(j), as an uninterpreted function with its recursion and the
    inductive consequences of term >= 0"""
    c = ctx()
    nz = zlen(n)
    st = term.sort()
    if st == z3.IntSort() and toz(start).sort() != z3.IntSort():
        term = z3.ToReal(term)
        st = z3.RealSort()
    if "(cos " in term.sexpr():
        term = z3.simplify(term)
    s0 = toz(start) if st == z3.IntSort() else toreal(toz(start))
    S = c.fresh_fn("sum", z3.IntSort(), st)
    at = lambda t: z3.substitute(term, (i, t))  # noqa
    k = z3.Int("sk")
    c.add(S(z3.IntVal(0)) == s0)
    c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nz), S(k + 1) == S(k) + at(k)), patterns=[S(k + 1), S(k)] if False else [S(k)]))
    # sign lemma (induction on k, justified: every summand is >= 0 / <= 1)
    q = z3.Solver()
    q.set("timeout", 2000)
    for f in c.globals_q:
        q.add(f)
    q.add(z3.And(i >= 0, i < nz), term < 0)
    nonneg = q.check() == z3.unsat  # from the library contracts only (the path condition can be hard)
    q = z3.Solver()
    q.set("timeout", 3000)
    for f in c.pc + c.qf:
        q.add(f)
    if not nonneg:
        q.push()
        q.add(z3.And(i >= 0, i < nz), term < 0)
        nonneg = q.check() == z3.unsat
        q.pop()
    if nonneg:
        a, b = z3.Ints("sa sb")
        c.add(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b, b <= nz), S(a) <= S(b)), patterns=[z3.MultiPattern(S(a), S(b))]))
        c.add(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nz), S(nz) >= s0 + at(a)), patterns=_pats(term, i) and [z3.substitute(p, (i, a)) for p in _pats(term, i)] or []))
        w = c.fresh("wit", z3.IntSort())
        c.add(S(nz) >= s0)
        c.add(z3.Implies(S(nz) > s0, z3.And(w >= 0, w < nz, at(w) > 0)))
        q.add(z3.And(i >= 0, i < nz), term > 1)
        if q.check() == z3.unsat:
            c.add(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a <= nz), S(a) <= s0 + (a if st == z3.IntSort() else z3.ToReal(a))), patterns=[S(a)]))
            c.add(S(nz) <= s0 + (nz if st == z3.IntSort() else z3.ToReal(nz)))
    if "(cos " in term.sexpr() and st == z3.RealSort():  # sums of cosines
        q.add(z3.And(i >= 0, i < nz), term > 1)
        if q.check() == z3.unsat:
            w = c.fresh("wit", z3.IntSort())
            c.add(S(nz) <= s0 + z3.ToReal(nz))
            c.add(z3.Implies(S(nz) < s0 + z3.ToReal(nz), z3.And(w >= 0, w < nz, at(w) < 1)))
    return lambda t: wrapz(S(toz(t)))


# ------------------------------------------------------------------ loops
class Tracker(list):
    """stand-in for a local list inside a summarised loop body: records appends, refuses reads"""

    def __init__(self) -> None:
        super().__init__()
        self.items: tp.List[tp.Any] = []

    def append(self, x: tp.Any) -> None:
        self.items.append(x)

    def _bad(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        raise Unsupported("list read or modified inside a summarised loop")

    extend = insert = pop = remove = clear = sort = reverse = __getitem__ = __setitem__ = __len__ = _bad  # type: ignore
    __iter__ = __contains__ = __add__ = __iadd__ = index = count = __delitem__ = _bad  # type: ignore


def _snapshot(vals: tp.Iterable[tp.Any], depth: int = 4) -> tp.List[tp.Any]:
    """shallow images of the mutable objects reachable from the loop's variables"""
    out: tp.List[tp.Any] = []
    seen: tp.Set[int] = set()
    todo = [(v, 0) for v in vals]
    while todo:
        v, d = todo.pop()
        if id(v) in seen or d > depth or len(out) > 400:
            continue
        seen.add(id(v))
        if type(v) in (SInt, SReal, SBool, SFp):
            continue
        if type(v) is SSeq:
            out.append((v, "sseq", (v.n, v._get)))
        elif type(v) in (list, set) or type(v).__name__ in ("OrderedSet", "deque"):
            img = builtins.list(v)
            out.append((v, "list", img))
            todo.extend((x, d + 1) for x in img)
        elif type(v) is dict or builtins.isinstance(v, dict) and type(v) is not SSeq:
            img2 = dict(v)
            out.append((v, "dict", img2))
            todo.extend((x, d + 1) for x in img2.values())
        elif hasattr(v, "__dict__") and not builtins.isinstance(v, (type, types.ModuleType, types.FunctionType)):
            img3 = dict(v.__dict__)
            out.append((v, "obj", img3))
            todo.extend((x, d + 1) for x in img3.values())
    return out


def _unchanged(snap: tp.List[tp.Any]) -> bool:
    for v, kind, img in snap:
        if kind == "sseq":
            if v.n is not img[0] or v._get is not img[1]:
                return False
            continue
        if kind == "list":
            now = builtins.list(v)
            if len(now) != len(img) or builtins.any(a is not b for a, b in builtins.zip(now, img)):
                return False
            continue
        now2 = v if kind == "dict" else v.__dict__
        if now2.keys() != img.keys() or builtins.any(now2[k] is not img[k] for k in img):
            return False
    return True


def _contains_sym(e: tp.Any, syms: tp.Sequence[tp.Any]) -> bool:
    ids = {s.get_id() for s in syms}
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
        if z3.is_quantifier(x):
            todo.append(x.body())
    return False


def _simple_exit(results: tp.Any, stored: tp.Any, st0: tp.Any, accs: tp.Any, apps: tp.Any) -> tp.Any:
    """(signal, values) of the exits of a loop when they are constants, else None"""
    if accs or apps:
        return None
    plain = (bool, int, float, str, type(None))
    out: tp.Any = None
    for _, kind, v in results:
        if kind == "exc":
            return None
        sig, st, trk = v
        if sig[0] == "next":
            continue
        if not builtins.all(type(x) in plain for x in sig):
            return None
        vals = {k: st[k] for k in stored if k in st and type(st[k]) in plain}
        if out is not None and out != (sig, vals):
            return None
        out = (sig, vals)
    return out


def forloop(it: tp.Any, body: tp.Any, get: tp.Any, set_: tp.Any, key: str, stored_: tp.Any) -> tp.Any:
    c = ctx()
    s = seq(it)
    stored, mutated = stored_
    inv = c.invariants.get(key)
    if inv is not None:
        return _inv_for(s, body, get, set_, key, stored, inv)
    c.loops[key] = "summarised"
    n = zlen(s.n)
    st0 = get()
    havoc: tp.Dict[str, tp.Any] = {}
    hsyms: tp.Dict[str, tp.Any] = {}
    lists = [k for k, v in st0.items() if type(v) is list and (k in mutated or k in stored)]
    for k in stored:
        if k in st0 and k not in lists:
            v = st0[k]
            if isnum(v) and not core.isbool(v) and type(v) is not SBool:
                z = toz(v)
                h = c.fresh("lv_" + k, z.sort())
                hsyms[k] = h
                havoc[k] = wrapz(h)
            else:
                havoc[k] = Poison()
    i = generic()
    rng = z3.And(i >= 0, i < n)
    c.fresh_n += 1
    lid = c.fresh_n
    others = [v for k, v in st0.items() if k not in stored and k not in lists]
    results: tp.List[tp.Any] = []
    before = c.fresh_n

    def one(idx: tp.Any) -> tp.Any:
        st = dict(st0)
        st.update(havoc)
        trk = {k: Tracker() for k in lists}
        st.update(trk)
        set_(st)
        snap = _snapshot(others)
        c.idx.append([lid, toz(idx), 0])
        try:
            sig = body(s.at(idx))
        finally:
            c.idx.pop()
        if not _unchanged(snap):
            raise Unsupported(f"{key}: loop body modifies an object; an invariant is needed")
        return sig, get(), trk

    c.solver.push()
    npc = len(c.pc)
    c.add(rng)
    try:
        for cond, kind, v in c.merge(lambda: one(SInt(i))):
            results.append((cond, kind, v))
    finally:
        c.solver.pop()
        del c.pc[npc:]
        set_(st0)
    exits, incs, apps = [], {}, {}  # type: ignore
    for cond, kind, v in results:
        _no_fresh(cond, before)
        if hsyms and _contains_sym(cond, builtins.list(hsyms.values())):
            # a control decision depends on a loop-carried value
            raise Unsupported(f"{key}: control depends on a loop-carried value; an invariant is needed")
        if kind == "exc" or v[0][0] != "next":
            exits.append(cond)
            if kind == "exc":
                continue
        sig, st, trk = v
        if sig[0] == "next":
            for k, h in hsyms.items():
                nv = st.get(k)
                if nv is None or not isnum(nv):
                    incs.setdefault(k, []).append((cond, None))
                    continue
                d = z3.simplify((toreal(toz(nv)) - toreal(h)) if toz(nv).sort() != h.sort() else toz(nv) - h)
                incs.setdefault(k, []).append((cond, None if _contains_sym(d, builtins.list(hsyms.values())) else d))
            for k, t in trk.items():
                if t.items:
                    if len(t.items) > 1:
                        raise Unsupported(f"{key}: several appends per iteration")
                    apps.setdefault(k, []).append((cond, t.items[0]))
    accs: tp.Dict[str, tp.Any] = {}
    nexts = [v[1] for _, kind, v in results if kind == "ok" and v[0][0] == "next"]
    unmod = {k for k in havoc if type(havoc[k]) is Poison and builtins.all(st.get(k) is havoc[k] for st in nexts)}
    temps: tp.List[str] = [k for k in stored if k not in hsyms and k not in unmod]
    for k, lst in incs.items():
        if builtins.any(d is None for _, d in lst):
            temps.append(k)
            continue
        if builtins.all(z3.is_int_value(d) and d.as_long() == 0 or z3.is_rational_value(d) and d.numerator_as_long() == 0 for _, d in lst):
            continue
        t = lst[-1][1]
        for cond, d in lst[:-1]:
            if d.sort() != t.sort():
                d, t = toreal(d), toreal(t)
            t = z3.If(cond, d, t)
        _no_fresh(t, before)
        accs[k] = fold_sum(s.n, t, i, st0[k])
    E = z3.Or(*exits) if exits else z3.BoolVal(False)
    elem = s.at(SInt(i))
    heap = _snapshot(others)

    def final_lists(m: tp.Any) -> tp.Dict[str, tp.Any]:
        out = {}
        for k, lst in apps.items():
            if lists and len(st0[k]) > 0:
                base: tp.Any = st0[k]
            else:
                base = None
            acond = z3.Or(*[cd for cd, _ in lst])
            sub = SSeq(m, s._get, list) if not builtins.isinstance(m, type(s.n)) or m is not s.n else s

            def val(idx: tp.Any, k: str = k, lst: tp.Any = lst) -> tp.Any:
                if builtins.all(x is elem for _, x in lst):
                    return s.at(idx)
                if not _unchanged(heap):
                    raise Unsupported(f"{key}: lazily read list whose elements depend on modified objects")
                outs = []
                saved = get()
                try:
                    for cond, kind, v in ctx().merge(lambda: one(idx)):
                        if kind == "ok" and v[2][k].items:
                            outs.append((cond, v[2][k].items[0]))
                finally:
                    set_(saved)
                if not outs:
                    raise Infeasible()
                r = outs[-1][1]
                for cond, w in outs[:-1]:
                    r = ite(SBool(cond), w, r) if isnum(w) else _same(w, r)
                return r

            fs = filtered_idx(sub, lambda t: z3.substitute(acond, (i, t)), val)
            out[k] = fs if base is None else concat(base, fs)
        return out

    simple = _simple_exit(results, stored, st0, accs, apps) if exits else None
    if simple is not None:
        # what happens at the exit does not depend on the element: no witness is needed
        if c.decide(z3.Exists([i], z3.And(rng, E))):
            st = dict(st0)
            st.update({k: Poison() for k in temps})
            st.update(simple[1])
            set_(st)
            return simple[0]
    elif exits:
        ex = c.decide_free("loopexit")
        if ex:
            k0 = c.fresh("exit", z3.IntSort())
            c.add(z3.And(k0 >= 0, k0 < n))
            c.add(z3.substitute(E, (i, k0)))
            if not c.feasible(z3.BoolVal(True)):
                raise Infeasible()
            c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k0), z3.Not(E))))
            st = dict(st0)
            st.update({k: f(SInt(k0)) for k, f in accs.items()})
            st.update({k: Poison() for k in temps})
            if apps:
                st.update(final_lists(SInt(k0)))
            set_(st)
            c.idx.append([lid, k0, 0])
            try:
                return body(s.at(SInt(k0)))
            finally:
                c.idx.pop()
        c.add(z3.ForAll([i], z3.Implies(rng, z3.Not(E))))
    st = dict(st0)
    st.update({k: f(s.n if issym(s.n) else SInt(z3.IntVal(s.n))) for k, f in accs.items()})
    st.update({k: Poison() for k in temps})
    st.update(final_lists(s.n))
    set_(st)
    return NEXT


def filtered_idx(s: SSeq, cond_at: tp.Any, val: tp.Any) -> SSeq:
    i = SSeq(s.n, lambda k: k, list)
    return filtered(i, lambda k: SBool(cond_at(toz(k))), val)


def _decide_free(self: tp.Any, name: str) -> bool:
    b = self.fresh(name, z3.BoolSort())
    return self.decide(b)


core.Ctx.decide_free = _decide_free  # type: ignore


class Inv:
    """loop contract: inv(state dict, k) -> truth; havoc(state dict) -> dict of replacement values;
    measure(state) -> integer that decreases (while loops)"""

    def __init__(self, inv: tp.Any, havoc: tp.Any = None, measure: tp.Any = None, name: str = "loop") -> None:
        self.inv, self.havoc, self.measure, self.name = inv, havoc, measure, name


def _havoc(st0: tp.Dict[str, tp.Any], stored: tp.List[str], inv: Inv) -> tp.Dict[str, tp.Any]:
    c = ctx()
    st = dict(st0)
    repl = inv.havoc(st0) if inv.havoc is not None else {}
    for k in stored:
        if k in repl:
            continue
        if k not in st0:
            continue
        v = st0[k]
        if core.isbool(v) or type(v) is SBool:
            st[k] = SBool(c.fresh("hv_" + k, z3.BoolSort()))
        elif isnum(v):
            st[k] = wrapz(c.fresh("hv_" + k, toz(v).sort()))
        else:
            st[k] = Poison()
    st.update(repl)
    return st


def _need(inv: Inv, st: tp.Dict[str, tp.Any], k: tp.Any) -> tp.Any:
    try:
        return inv.inv(st, k)
    except KeyError as e:
        raise Unsupported(f"loop contract {inv.name}: variable {e} not found") from None


def _inv_for(s: SSeq, body: tp.Any, get: tp.Any, set_: tp.Any, key: str, stored: tp.List[str], inv: Inv) -> tp.Any:
    c = ctx()
    c.loops[key] = "invariant"
    n = SInt(zlen(s.n))
    st0 = get()
    c.prove(f"{inv.name}:init", tobool(_need(inv, st0, 0)))
    if c.decide_free("iterate"):
        k = SInt(c.fresh("k", z3.IntSort()))
        st = _havoc(st0, stored, inv)
        c.add(z3.And(k.e >= 0, k.e < n.e))
        c.assume(tobool(_need(inv, st, k)))
        set_(st)
        sig = body(s.at(k))
        if sig[0] == "next":
            c.prove(f"{inv.name}:preserved", tobool(_need(inv, get(), k + 1)))
            raise Infeasible()
        return sig
    st = _havoc(st0, stored, inv)
    c.assume(n.e >= 0)
    c.assume(tobool(_need(inv, st, n)))
    set_(st)
    return NEXT


def whileloop(cond: tp.Any, body: tp.Any, get: tp.Any, set_: tp.Any, key: str, stored_: tp.Any) -> tp.Any:
    c = ctx()
    stored = stored_[0]
    inv: Inv = c.invariants[key]
    c.loops[key] = "invariant"
    st0 = get()
    c.prove(f"{inv.name}:init", tobool(_need(inv, st0, None)))
    it = c.decide_free("iterate")
    st = _havoc(st0, stored, inv)
    set_(st)
    c.assume(tobool(_need(inv, st, None)))
    if it:
        if not cond():
            raise Infeasible()
        m0 = inv.measure(get()) if inv.measure else None
        sig = body(None)
        if sig[0] == "next":
            c.prove(f"{inv.name}:preserved", tobool(_need(inv, get(), None)))
            if inv.measure:
                m1 = inv.measure(get())
                c.prove(f"{inv.name}:decreases", tobool(land(m1 < m0, m0 >= 0)))
            raise Infeasible()
        return sig
    if cond():
        raise Infeasible()
    return NEXT
