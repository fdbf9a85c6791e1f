"""Symbolic execution core: path exploration, proof obligations, symbolic values and the lowered-code runtime."""
import math
import sys
import time
import builtins
import functools
import itertools
import typing as tp
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

NEXT = ("next",)
BREAK = ("break",)


class EngineExit(BaseException):
    pass


class Infeasible(EngineExit):
    pass


class Unsupported(EngineExit):
    """the code left the verified subset: no obligation can be generated"""


class PathLimit(Unsupported):
    pass


# ------------------------------------------------------------------ context
class Ctx:
    """one exploration (one harness case)"""

    def __init__(self, max_paths: int = 4000, timeout_ms: int = 20000) -> None:
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.obls: tp.Dict[str, tp.Dict[str, tp.Any]] = {}
        self.paths = 0
        self.covered: tp.Dict[str, int] = {}
        self.solver_s = 0.0
        self.queries = 0
        self.failures: tp.List[tp.Dict[str, tp.Any]] = []
        self.globals_q: tp.List[tp.Any] = []
        self.axiom_names: tp.Set[str] = set()
        self.trusted: tp.Set[str] = set()
        self.stubs: tp.Dict[str, tp.Any] = {}
        self.invariants: tp.Dict[str, tp.Any] = {}
        self.cvc5_checked = 0
        self.loops: tp.Dict[str, str] = {}
        self._reset()

    def _reset(self) -> None:
        self.pc: tp.List[tp.Any] = []  # ground facts
        self.qf: tp.List[tp.Any] = list(self.globals_q)  # quantified facts
        self.perm: tp.List[tp.Any] = []  # quantified facts which outlive merges (ranges of the random draws)
        self.idx: tp.List[tp.List[tp.Any]] = []  # elements being computed: [id of the sequence, index, number of draws]
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.stack: tp.List["Frame"] = []
        self.fresh_n = 0
        self.quantiles: tp.List[tp.Any] = []
        self.hints: tp.Set[int] = set()
        self.keep: tp.List[tp.Any] = []
        self.inputs: tp.Dict[str, tp.Any] = {}
        self.notes: tp.List[str] = []

    # -- facts
    def add(self, e: tp.Any) -> None:
        if _has_q(e):
            self.qf.append(e)
        else:
            self.pc.append(e)
            self.solver.add(e)

    def hint(self, e: tp.Any) -> None:
        """instance of a global axiom: helps the ground solver, never part of a path condition"""
        self.hints.add(e.get_id())
        self.keep.append(e)
        self.add(e)

    def draw(self, prefix: str, sort: tp.Any, con: tp.Any = None) -> tp.Any:
        """fresh arbitrary value satisfying con; one independent value per element within lazily computed sequences"""
        if not self.idx:
            e = self.fresh(prefix, sort)
            if con is not None:
                self.add(con(e))
            return e
        n = self.idx[-1][2]
        self.idx[-1][2] += 1
        ids = [i for i, _, _ in self.idx]
        args = [k for _, k, _ in self.idx]
        f = z3.Function(f"{prefix}@{'.'.join(map(str, ids))}@{n}@{sort}", *([z3.IntSort()] * len(args)), sort)
        e = f(*args)
        if con is not None:
            vs = [z3.Int(f"dk{q}") for q in range(len(args))]
            g = z3.ForAll(vs, con(f(*vs)), patterns=[f(*vs)])
            if not any(g.eq(h) for h in self.perm):
                self.perm.append(g)
            self.hint(con(e))
        return e

    def axiom(self, name: str, e: tp.Any) -> None:
        """global fact, e.g. a trusted library contract"""
        if name in self.axiom_names:
            return
        self.axiom_names.add(name)
        self.globals_q.append(e)
        self.qf.append(e)

    def fresh(self, prefix: str, sort: tp.Any) -> tp.Any:
        self.fresh_n += 1
        return z3.Const(f"{prefix}!{self.fresh_n}", sort)

    def fresh_fn(self, prefix: str, *sorts: tp.Any) -> tp.Any:
        self.fresh_n += 1
        return z3.Function(f"{prefix}!{self.fresh_n}", *sorts)

    # -- solver
    def feasible(self, e: tp.Any) -> bool:
        t = time.time()
        self.queries += 1
        r = self.solver.check(e)
        self.solver_s += time.time() - t
        return r != z3.unsat

    def decide(self, e: tp.Any) -> bool:
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if not self.stack:
            raise Unsupported("symbolic branch outside of an exploration")
        fr = self.stack[-1]
        if fr.pos < len(fr.prefix):
            choice = fr.prefix[fr.pos]
            fr.pos += 1
            self.add(e if choice else z3.Not(e))
            return choice
        can_t = self.feasible(e)
        can_f = self.feasible(z3.Not(e)) if can_t else True
        fr.pos += 1
        if can_t and not can_f:
            fr.prefix.append(True)
            self.add(e)
            return True
        if can_f and not can_t:
            fr.prefix.append(False)
            self.add(z3.Not(e))
            return False
        fr.prefix.append(True)
        fr.pending.append(fr.prefix[:-1] + [False])
        self.add(e)
        return True

    def assume(self, e: tp.Any) -> None:
        self.add(e)
        if not _has_q(e) and self.solver.check() == z3.unsat:
            raise Infeasible()

    # -- exploration
    def explore(self, fn: tp.Callable[[], tp.Any]) -> None:
        pending: tp.List[tp.List[bool]] = [[]]
        while pending:
            prefix = pending.pop()
            self._reset()
            fr = Frame(prefix, pending)
            self.stack.append(fr)
            self.paths += 1
            if self.paths > self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            try:
                fn()
                self.covered["end"] = self.covered.get("end", 0) + 1
            except Infeasible:
                pass

    def merge(self, fn: tp.Callable[[], tp.Any]) -> tp.List[tp.Tuple[tp.Any, str, tp.Any]]:
        """explores all paths of a side-effect free fn; returns [(path condition, 'ok'|'exc', value)]"""
        out: tp.List[tp.Tuple[tp.Any, str, tp.Any]] = []
        pending: tp.List[tp.List[bool]] = [[]]
        n = 0
        while pending:
            prefix = pending.pop()
            n += 1
            if n > 300:
                raise PathLimit("merge: too many paths")
            npc, nqf = len(self.pc), len(self.qf)
            self.solver.push()
            self.stack.append(Frame(prefix, pending))
            try:
                try:
                    v = fn()
                    kind = "ok"
                except Infeasible:
                    continue
                except Exception as e:  # exception of the code under verification
                    v, kind = e, "exc"
                    if self._check(z3.BoolVal(False))[0] == "proved":  # infeasible once quantified facts are used
                        continue
                facts = [f for f in self.pc[npc:] if f.get_id() not in self.hints]
                cond = z3.And(*facts) if facts else z3.BoolVal(True)
                if len(self.qf) > nqf:
                    cond = z3.And(cond, *self.qf[nqf:])
                out.append((cond, kind, v))
            finally:
                self.stack.pop()
                self.solver.pop()
                del self.pc[npc:]
                del self.qf[nqf:]
        return out

    # -- obligations
    def prove(self, name: str, e: tp.Any, info: tp.Any = None) -> bool:
        o = self.obls.setdefault(
            name, {"name": name, "n": 0, "discharged": 0, "time": 0.0, "backend": {}, "failed": []}
        )
        o["n"] += 1
        e = z3.simplify(e) if not _has_q(e) else e
        t0 = time.time()
        status, backend, model = self._check(e)
        dt = time.time() - t0
        o["time"] += dt
        self.solver_s += dt
        if status == "proved":
            o["discharged"] += 1
            o["backend"][backend] = o["backend"].get(backend, 0) + 1
            self.add(e)
            return True
        rec = {"obligation": name, "status": status, "goal": str(e)[:600], "info": info, "model": model}
        o["failed"].append(rec)
        self.failures.append(rec)
        # continue under the assumption that it holds, when that is possible
        self.add(e)
        if not _has_q(e) and self.solver.check() == z3.unsat:
            raise Infeasible()
        return False

    def _check(self, e: tp.Any) -> tp.Tuple[str, str, tp.Any]:
        self.queries += 1
        if z3.is_true(e):
            return "proved", "simplifier", None
        neg = z3.Not(e)
        r = self.solver.check(neg)  # ground facts only
        if r == z3.unsat:
            return "proved", "z3", None
        ground_model = self.solver.model() if r == z3.sat else None
        if not self.qf and not self.perm and not _has_q(e):
            if r == z3.sat:
                return "refuted", "z3", self._model(neg, [])
            return self._fallback(neg, None)
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for f in self.pc + self.qf + self.perm + [neg]:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return "refuted", "z3", self._model(neg, self.qf + self.perm)
        st, be, _ = self._fallback(neg, self.qf + self.perm)
        if st == "proved":
            return st, be, None
        if r == z3.unknown and len(self.failures) < 2:
            # an unlucky search is not an answer: other seeds before giving up
            for seed in (7, 41):
                s = z3.Solver()
                s.set("timeout", self.timeout_ms)
                s.set("random_seed", seed)
                for f in self.pc + self.qf + self.perm + [neg]:
                    s.add(f)
                if s.check() == z3.unsat:
                    return "proved", "z3", None
        del ground_model
        return "unknown", "z3", self._model(neg, [])

    def _model(self, neg: tp.Any, qf: tp.List[tp.Any]) -> tp.Any:
        """a small model, decoded into the harness' named inputs"""
        base = z3.Solver()
        base.set("timeout", 5000)
        for f in self.pc + qf + [neg]:
            base.add(f)
        sizes = [v["len"] for v in self.inputs.values() if isinstance(v, dict) and v.get("len") is not None]
        for bound in (3, 6, 12, 40, None):
            base.push()
            if bound is not None:
                for s in sizes:
                    if not isinstance(s, int):
                        base.add(s <= bound)
                for v in self.inputs.values():
                    if not isinstance(v, dict) and z3.is_arith(v):
                        base.add(v <= 1000, v >= -1000)
            r = base.check()
            if r == z3.sat:
                m = base.model()
                try:
                    return decode_inputs(m, self.inputs)
                finally:
                    base.pop()
            base.pop()
        return None

    def _fallback(self, neg: tp.Any, qf: tp.Any) -> tp.Tuple[str, str, tp.Any]:
        s = z3.Solver()
        for f in self.pc + (qf or []) + [neg]:
            s.add(f)
        r = cvc5_check(s, self.timeout_ms)
        if r == "unsat":
            return "proved", "cvc5", None
        return ("unknown" if r != "sat" else "refuted"), "cvc5", self._model(neg, qf or [])

    def cover(self, name: str) -> None:
        """vacuity guard: the current path is feasible"""
        if self.covered.get(name, 0) == 0:
            r = self.solver.check()
            if r == z3.sat:
                self.covered[name] = 1
            else:
                self.covered.setdefault(name, 0)


def cvc5_check(s: z3.Solver, timeout_ms: int) -> str:
    try:
        import cvc5

        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption("tlimit-per", str(timeout_ms))
        sv.setLogic("ALL")
        p = cvc5.InputParser(sv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), "q")
        sm = p.getSymbolManager()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sv, sm)
            if out.strip() in ("sat", "unsat", "unknown"):
                res = out.strip()
        return res or "unknown"
    except Exception as e:  # back end unavailable or unsupported input: undecided
        return "error " + str(e)[:80]


class Frame:
    def __init__(self, prefix: tp.List[bool], pending: tp.List[tp.List[bool]]) -> None:
        self.prefix = list(prefix)
        self.pending = pending
        self.pos = 0


CTX: tp.Optional[Ctx] = None


def ctx() -> Ctx:
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


def set_ctx(c: tp.Optional[Ctx]) -> None:
    global CTX
    CTX = c


_QCACHE: tp.Dict[int, bool] = {}


def _has_q(e: tp.Any) -> bool:
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


# ------------------------------------------------------------------ decoding of models
def val_to_py(v: tp.Any) -> tp.Any:
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_fp(v):
        import struct

        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        bv = z3.simplify(z3.fpToIEEEBV(v))
        return struct.unpack(">d", struct.pack(">Q", bv.as_long()))[0]
    return str(v)


def decode_inputs(m: tp.Any, inputs: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    out: tp.Dict[str, tp.Any] = {}
    for k, v in inputs.items():
        if isinstance(v, dict):
            n = v["len"]
            n = n if isinstance(n, int) else val_to_py(m.eval(n, model_completion=True))
            n = max(0, min(int(n), 60))
            out[k] = [
                val_to_py(m.eval(v["fn"](z3.IntVal(i)), model_completion=True)) for i in range(n)
            ]
        else:
            out[k] = val_to_py(m.eval(v, model_completion=True))
    return out


# ------------------------------------------------------------------ symbolic values
class Sym:
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __array__(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        raise Unsupported("symbolic value entered native numpy code")

    def __hash__(self) -> int:
        raise Unsupported("hash of a symbolic value")

    def __format__(self, spec: str) -> str:
        return "<sym>"

    def __repr__(self) -> str:
        return f"<sym {str(self.e)[:80]}>"

    __str__ = __repr__


class SBool(Sym):
    def __init__(self, e: tp.Any) -> None:
        self.e = e

    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return bool

    def __bool__(self) -> bool:
        return ctx().decide(self.e)

    def __and__(self, o: tp.Any) -> tp.Any:
        return SBool(z3.And(self.e, tobool(o)))

    def __or__(self, o: tp.Any) -> tp.Any:
        return SBool(z3.Or(self.e, tobool(o)))

    def __xor__(self, o: tp.Any) -> tp.Any:
        return SBool(z3.Xor(self.e, tobool(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self) -> tp.Any:
        return SBool(z3.Not(self.e))

    def _i(self) -> "SInt":
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o: tp.Any) -> tp.Any:
        if isbool(o):
            return SBool(self.e == tobool(o))
        return self._i() == o

    def __ne__(self, o: tp.Any) -> tp.Any:
        return SBool(z3.Not(tobool(self == o)))

    __hash__ = Sym.__hash__

    def __add__(self, o: tp.Any) -> tp.Any:
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o: tp.Any) -> tp.Any:
        return self._i() - o

    def __rsub__(self, o: tp.Any) -> tp.Any:
        return o - self._i()

    def __mul__(self, o: tp.Any) -> tp.Any:
        return self._i() * o

    __rmul__ = __mul__

    def __index__(self) -> int:
        return int(bool(self))

    def any(self) -> tp.Any:
        return self

    all = any


def isbool(o: tp.Any) -> bool:
    import numpy as np

    return builtins.isinstance(o, (bool, np.bool_))


def tobool(o: tp.Any) -> tp.Any:
    import numpy as np

    if type(o) is SBool:
        return o.e
    if type(o) in (bool, np.bool_):
        return z3.BoolVal(bool(o))
    if isnum(o):
        return toz(o) != 0
    raise Unsupported(f"not a boolean: {type(o)}")


def isnum(o: tp.Any) -> bool:
    import numpy as np

    return type(o) in (SReal, SInt, SBool) or builtins.isinstance(
        o, (int, float, np.integer, np.floating, np.bool_, Fraction)
    )


def issym(o: tp.Any) -> bool:
    return builtins.isinstance(o, Sym) or getattr(type(o), "_ngvc_sym", False)


def frac(v: tp.Any) -> tp.Any:
    """exact rational of a python number; the code's decimal literals are read as the exact value of the double"""
    return Fraction(v)


def toz(o: tp.Any) -> tp.Any:
    import numpy as np
    import math

    t = type(o)
    if t in (SReal, SInt):
        return o.e
    if t is SBool:
        return o._i().e
    if builtins.isinstance(o, (bool, np.bool_)):
        return z3.IntVal(int(o))
    if builtins.isinstance(o, (int, np.integer)):
        return z3.IntVal(int(o))
    if builtins.isinstance(o, (float, np.floating)):
        if math.isnan(o) or math.isinf(o):
            raise Unsupported("nan/inf constant in exact real arithmetic")
        f = Fraction(float(o))
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if builtins.isinstance(o, Fraction):
        return z3.RealVal(f"{o.numerator}/{o.denominator}")
    if z3.is_expr(o):
        return o
    if t is np.ndarray and o.size == 1:
        return toz(o.reshape(-1)[0])
    raise Unsupported(f"not a number: {t}")


def toreal(e: tp.Any) -> tp.Any:
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def wrapz(e: tp.Any) -> tp.Any:
    if e.sort() == z3.BoolSort():
        return SBool(e)
    if e.sort() == z3.IntSort():
        return SInt(e)
    if e.sort() == z3.RealSort():
        return SReal(e)
    if z3.is_fp(e):
        return SFp(e)
    raise Unsupported(f"sort {e.sort()}")


def _infcmp(o: tp.Any) -> tp.Optional[float]:
    import math
    import numpy as np

    if builtins.isinstance(o, (float, np.floating)) and type(o) is not SReal:
        if math.isinf(o) or math.isnan(o):
            return float(o)
    return None


class SNum(Sym):
    def __init__(self, e: tp.Any) -> None:
        self.e = e

    # arithmetic
    def _bin(self, o: tp.Any, f: tp.Callable[[tp.Any, tp.Any], tp.Any], rev: bool = False) -> tp.Any:
        if type(o) is SFp:
            return NotImplemented
        if not isnum(o):
            return NotImplemented
        if _infcmp(o) is not None:
            raise Unsupported("arithmetic with inf/nan")
        a, b = self.e, toz(o)
        if rev:
            a, b = b, a
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return wrapz(f(a, b))

    def __add__(self, o: tp.Any) -> tp.Any:
        if type(o) is float and math.isinf(o):
            return o  # finite + inf
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o: tp.Any) -> tp.Any:
        if type(o) is float and math.isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o: tp.Any) -> tp.Any:
        if type(o) is float and math.isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o: tp.Any) -> tp.Any:
        if type(o) is float and math.isinf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o: tp.Any) -> tp.Any:
        import numpy as np

        if type(o) in (builtins.list, builtins.tuple, str):
            return o * self.__index__()
        if type(o) is np.ndarray:
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o: tp.Any) -> tp.Any:
        if type(o) in (builtins.list, builtins.tuple, str):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def _div(self, a: tp.Any, b: tp.Any) -> tp.Any:
        za, zb = toreal(toz(a)), toreal(toz(b))
        if ctx().decide(zb == 0):
            raise ZeroDivisionError("division by zero")
        return SReal(za / zb)

    def __truediv__(self, o: tp.Any) -> tp.Any:
        if not isnum(o):
            return NotImplemented
        if _infcmp(o) is not None:
            import math

            if math.isnan(o):
                raise Unsupported("nan arithmetic")
            return SReal(z3.RealVal(0))
        return self._div(self, o)

    def __rtruediv__(self, o: tp.Any) -> tp.Any:
        if not isnum(o):
            return NotImplemented
        return self._div(o, self)

    def _fdiv(self, a: tp.Any, b: tp.Any) -> tp.Any:
        za, zb = toz(a), toz(b)
        if ctx().decide(zb == 0):
            raise ZeroDivisionError("division by zero")
        if za.sort() == z3.IntSort() and zb.sort() == z3.IntSort():
            # python floors; SMT-LIB div floors for positive divisors
            if ctx().decide(zb > 0):
                return SInt(za / zb)
            return SInt((-za) / (-zb))
        za, zb = toreal(za), toreal(zb)
        return SReal(z3.ToReal(z3.ToInt(za / zb)))

    def __floordiv__(self, o: tp.Any) -> tp.Any:
        return self._fdiv(self, o) if isnum(o) else NotImplemented

    def __rfloordiv__(self, o: tp.Any) -> tp.Any:
        return self._fdiv(o, self) if isnum(o) else NotImplemented

    def _mod(self, a: tp.Any, b: tp.Any) -> tp.Any:
        q = self._fdiv(a, b)
        return wrapnum(a) - q * wrapnum(b)

    def __mod__(self, o: tp.Any) -> tp.Any:
        if not isnum(o):
            return NotImplemented
        za, zb = toz(self), toz(o)
        if za.sort() == z3.IntSort() and zb.sort() == z3.IntSort():
            if ctx().decide(zb == 0):
                raise ZeroDivisionError("modulo by zero")
            if ctx().decide(zb > 0):
                return SInt(za % zb)
        return self._mod(self, o)

    def __rmod__(self, o: tp.Any) -> tp.Any:
        return wrapnum(o) % self if isnum(o) else NotImplemented

    def __divmod__(self, o: tp.Any) -> tp.Any:
        return self // o, self % o

    def __neg__(self) -> tp.Any:
        return wrapz(-self.e)

    def __pos__(self) -> tp.Any:
        return self

    def __abs__(self) -> tp.Any:
        return wrapz(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o: tp.Any, mod: tp.Any = None) -> tp.Any:
        return spow(self, o)

    def __rpow__(self, o: tp.Any) -> tp.Any:
        return spow(o, self)

    # comparisons
    def _cmp(self, o: tp.Any, f: tp.Callable[[tp.Any, tp.Any], tp.Any], infres: tp.Tuple[bool, bool]) -> tp.Any:
        if type(o) is SFp:
            return NotImplemented
        i = _infcmp(o)
        if i is not None:
            if i != i:
                return False
            return infres[0] if i > 0 else infres[1]
        if not isnum(o):
            return NotImplemented
        a, b = self.e, toz(o)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return SBool(f(a, b))

    def __lt__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a < b, (True, False))

    def __le__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a <= b, (True, False))

    def __gt__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a > b, (False, True))

    def __ge__(self, o: tp.Any) -> tp.Any:
        return self._cmp(o, lambda a, b: a >= b, (False, True))

    def __eq__(self, o: tp.Any) -> tp.Any:
        if o is None or type(o) is str:
            return False
        return self._cmp(o, lambda a, b: a == b, (False, False))

    def __ne__(self, o: tp.Any) -> tp.Any:
        if o is None or type(o) is str:
            return True
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if r in (True, False) and type(r) is bool else SBool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __bool__(self) -> bool:
        return ctx().decide(self.e != 0)

    # conversions
    def __round__(self, nd: tp.Any = None) -> tp.Any:
        if nd is not None:
            raise Unsupported("round with digits")
        if type(self) is SInt:
            return self
        # banker's rounding
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        return SInt(
            z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        )

    def __trunc__(self) -> tp.Any:
        return toint(self)

    def __floor__(self) -> tp.Any:
        return SInt(z3.ToInt(self.e)) if type(self) is SReal else self

    def __ceil__(self) -> tp.Any:
        return SInt(-z3.ToInt(-self.e)) if type(self) is SReal else self

    # numpy scalar protocol
    size = 1
    shape: tp.Tuple[int, ...] = ()
    ndim = 0

    def item(self) -> tp.Any:
        return self

    def copy(self) -> tp.Any:
        return self

    def __copy__(self) -> tp.Any:
        return self

    def __deepcopy__(self, memo: tp.Any) -> tp.Any:
        return self

    def any(self) -> tp.Any:
        return self != 0

    all = any


class SReal(SNum):
    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return float

    def is_integer(self) -> tp.Any:
        return SBool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __float__(self) -> float:
        raise Unsupported("float() of a symbolic value in native code")

    def __int__(self) -> int:
        raise Unsupported("int() of a symbolic value in native code")


class SInt(SNum):
    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return int

    def __index__(self) -> int:
        return concretize(self)

    __int__ = __index__

    def __float__(self) -> float:
        raise Unsupported("float() of a symbolic value in native code")

    def is_integer(self) -> bool:
        return True

    def bit_length(self) -> tp.Any:
        raise Unsupported("bit_length")


def wrapnum(o: tp.Any) -> tp.Any:
    if builtins.isinstance(o, Sym):
        return o
    return wrapz(toz(o))


def concretize(x: "SInt") -> int:
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
        return e.as_long()
    c = ctx()
    for _ in range(64):
        if c.solver.check() != z3.sat:
            raise Infeasible()
        v = c.solver.model().eval(x.e, model_completion=True)
        # choose the smallest feasible value first, for determinism
        lo = v.as_long()
        while c.solver.check(x.e < lo) == z3.sat:
            n = c.solver.model().eval(x.e, model_completion=True).as_long()
            if n < -1000:
                raise Unsupported("unbounded index")
            lo = n
        if c.decide(x.e == lo):
            return lo
    raise PathLimit("index has too many values")


_POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
_SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def sqrt_axioms() -> None:
    x = z3.Real("x")
    ctx().axiom(
        "sqrt",
        z3.ForAll([x], z3.Implies(x >= 0, z3.And(_SQRT(x) >= 0, (_SQRT(x) > 0) == (x > 0), _SQRT(x) * _SQRT(x) == x)), patterns=[_SQRT(x)]),
    )


def spow(a: tp.Any, b: tp.Any) -> tp.Any:
    import numpy as np

    if builtins.isinstance(a, np.ndarray) or builtins.isinstance(b, np.ndarray):
        return NotImplemented
    if not isnum(b) or not isnum(a):
        return NotImplemented
    if not issym(b):
        fb = Fraction(float(b))
        if fb.denominator == 1 and 0 <= fb.numerator <= 8:
            r: tp.Any = 1
            for _ in builtins.range(fb.numerator):
                r = a * r
            return wrapnum(r)
        if fb.denominator == 1 and -8 <= fb.numerator < 0:
            return 1.0 / spow(a, -fb.numerator)
        if fb == Fraction(1, 2):
            sqrt_axioms()
            e = toreal(toz(a))
            s = _SQRT(e)
            ctx().hint(z3.Implies(e >= 0, z3.And(s >= 0, (s > 0) == (e > 0), s * s == e)))
            return SReal(s)
    # general power: uninterpreted with the facts a caller asks for
    x, y = z3.Reals("x y")
    c = ctx()
    c.trusted.add("real power: b**x > 0 for b > 0, strictly increasing in x for b > 1, b**0 == 1")
    c.axiom("pow_pos", z3.ForAll([x, y], z3.Implies(x > 0, _POW(x, y) > 0), patterns=[_POW(x, y)]))
    c.axiom("pow_zero", z3.ForAll([x], z3.Implies(x > 0, _POW(x, 0) == 1), patterns=[_POW(x, 0)]))
    return SReal(_POW(toreal(toz(a)), toreal(toz(b))))


def toint(x: tp.Any) -> tp.Any:
    """python int(): truncation"""
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return x._i()
    e = x.e
    return SInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


# ------------------------------------------------------------------ IEEE-754 doubles (comparisons, clipping, ...)
F64 = z3.Float64()
RNE = z3.RNE()


def tofp(o: tp.Any) -> tp.Any:
    import numpy as np

    if type(o) is SFp:
        return o.e
    if builtins.isinstance(o, (int, float, np.floating, np.integer)) and not builtins.isinstance(o, Sym):
        return z3.FPVal(float(o), F64)
    raise Unsupported(f"not a double: {type(o)}")


class SFp(Sym):
    """an arbitrary IEEE-754 double, including nan and infinities"""

    size = 1
    shape: tp.Tuple[int, ...] = ()
    ndim = 0

    def __init__(self, e: tp.Any) -> None:
        self.e = e

    @property
    def __class__(self) -> tp.Any:  # type: ignore
        return float

    def _b(self, o: tp.Any, f: tp.Any, rev: bool = False) -> tp.Any:
        try:
            b = tofp(o)
        except Unsupported:
            return NotImplemented
        a = self.e
        if rev:
            a, b = b, a
        r = f(a, b)
        return SBool(r) if r.sort() == z3.BoolSort() else SFp(r)

    def __lt__(self, o: tp.Any) -> tp.Any:
        return self._b(o, z3.fpLT)

    def __le__(self, o: tp.Any) -> tp.Any:
        return self._b(o, z3.fpLEQ)

    def __gt__(self, o: tp.Any) -> tp.Any:
        return self._b(o, z3.fpGT)

    def __ge__(self, o: tp.Any) -> tp.Any:
        return self._b(o, z3.fpGEQ)

    def __eq__(self, o: tp.Any) -> tp.Any:
        if o is None:
            return False
        return self._b(o, z3.fpEQ)

    def __ne__(self, o: tp.Any) -> tp.Any:
        if o is None:
            return True
        return self._b(o, z3.fpNEQ)

    __hash__ = Sym.__hash__

    def __add__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpAdd(RNE, a, b))

    def __radd__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpAdd(RNE, a, b), True)

    def __sub__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpSub(RNE, a, b), True)

    def __mul__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpMul(RNE, a, b))

    def __rmul__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpMul(RNE, a, b), True)

    def __truediv__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpDiv(RNE, a, b))

    def __rtruediv__(self, o: tp.Any) -> tp.Any:
        return self._b(o, lambda a, b: z3.fpDiv(RNE, a, b), True)

    def __neg__(self) -> tp.Any:
        return SFp(z3.fpNeg(self.e))

    def __abs__(self) -> tp.Any:
        return SFp(z3.fpAbs(self.e))

    def __bool__(self) -> bool:
        return ctx().decide(z3.Not(z3.fpIsZero(self.e)))

    def isnan(self) -> SBool:
        return SBool(z3.fpIsNaN(self.e))

    def isinf(self) -> SBool:
        return SBool(z3.fpIsInf(self.e))

    def item(self) -> tp.Any:
        return self

    def copy(self) -> tp.Any:
        return self

    def __float__(self) -> float:
        raise Unsupported("float() of a symbolic value in native code")

    def __copy__(self) -> tp.Any:
        return self

    def __deepcopy__(self, memo: tp.Any) -> tp.Any:
        return self


# ------------------------------------------------------------------ polymorphic logic
def _allconc(a: tp.Iterable[tp.Any]) -> bool:
    return not builtins.any(issym(x) for x in a)


def land(*a: tp.Any) -> tp.Any:
    if _allconc(a):
        return builtins.all(a)
    return SBool(z3.And(*[tobool(x) for x in a]))


def lor(*a: tp.Any) -> tp.Any:
    if _allconc(a):
        return builtins.any(a)
    return SBool(z3.Or(*[tobool(x) for x in a]))


def lnot(a: tp.Any) -> tp.Any:
    return SBool(z3.Not(tobool(a))) if issym(a) else not a


def implies(a: tp.Any, b: tp.Any) -> tp.Any:
    """b may be a thunk, evaluated only when a may hold"""
    if not issym(a):
        if not a:
            return True
        return b() if callable(b) else b
    if callable(b):
        b = b()
    return SBool(z3.Implies(tobool(a), tobool(b)))


def ite(c: tp.Any, a: tp.Any, b: tp.Any) -> tp.Any:
    if not issym(c):
        return a if c else b
    if type(a) is SFp or type(b) is SFp:
        return SFp(z3.If(c.e, tofp(a), tofp(b)))
    if (type(a) is SBool or isbool(a)) and (type(b) is SBool or isbool(b)):
        return SBool(z3.If(c.e, tobool(a), tobool(b)))
    if isnum(a) and isnum(b):
        za, zb = toz(a), toz(b)
        if za.sort() != zb.sort():
            za, zb = toreal(za), toreal(zb)
        return wrapz(z3.If(tobool(c), za, zb))
    if a is b:
        return a
    raise Unsupported(f"cannot merge {type(a)} and {type(b)}")


def iff(a: tp.Any, b: tp.Any) -> tp.Any:
    if _allconc((a, b)):
        return bool(a) == bool(b)
    return SBool(tobool(a) == tobool(b))
