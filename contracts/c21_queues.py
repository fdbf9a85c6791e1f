"""C21: queues and ordered sets neither lose nor duplicate elements."""
import collections
from ngvc.harness import contract, bounded
from ngvc.seq import Inv
from nevergrad.common import tools
from nevergrad.optimization import utils

T = "nevergrad.common.tools:OrderedSet."
U = "nevergrad.optimization.utils:UidQueue."


class _Entries:
    """any finite sequence: entry e holds the value val(e) if inn(e), entries are in order of e, new ones come last"""

    def __init__(self, S, name, distinct):
        self.S, self.name = S, name
        z = S.z3
        self.in0 = z.Function(name + "_in", z.IntSort(), z.BoolSort())
        self.val0 = z.Function(name + "_val", z.IntSort(), z.IntSort())
        self.idx0 = z.Function(name + "_index", z.IntSort(), z.IntSort())
        self.end0 = self.end = S.int(name + "_end", 0)
        self.removed, self.added = [], []
        self.n = S.int(name + "_len", 0)
        e, f = z.Ints("e f")
        S.c.add(z.ForAll([e], z.Implies(self.in0(e), z.And(e >= 0, e < S.core.toz(self.end), S.core.toz(self.n) > 0)), patterns=[self.in0(e)]))
        w = S.int(name + "_some", 0)
        S.c.add(z.Implies(S.core.toz(self.n) > 0, self.in0(S.core.toz(w))))
        if distinct:
            S.c.add(z.ForAll([e, f], z.Implies(z.And(self.in0(e), self.in0(f), self.val0(e) == self.val0(f)), e == f), patterns=[z.MultiPattern(self.in0(e), self.in0(f))]))

    def z(self, x):
        return self.S.core.toz(x)

    def inn(self, e):
        z = self.S.z3
        r = z.Or(self.in0(e), *[e == a for a, _, _ in self.added])
        return z.And(r, *[e != x for x in self.removed])

    def val(self, e):
        r = self.val0(e)
        for a, v, _ in self.added:
            r = self.S.z3.If(e == a, v, r)
        return r

    def idx(self, e):
        r = self.idx0(e)
        for a, _, i in self.added:
            r = self.S.z3.If(e == a, i, r)
        return r

    def has(self, key):
        z = self.S.z3
        e = z.Int("he")
        c = [z.And(z.BoolVal(True), a == a, v == self.z(key), *[a != x for x in self.removed]) for a, v, _ in self.added]
        return z.Or(z.Exists([e], z.And(self.in0(e), self.val0(e) == self.z(key), *[e != x for x in self.removed])), *c)

    def any_(self):
        z = self.S.z3
        e = z.Int("he")
        return z.Or(z.Exists([e], z.And(self.in0(e), *[e != x for x in self.removed])), *[z.And(*[a != x for x in self.removed]) if self.removed else z.BoolVal(True) for a, _, _ in self.added])

    def pick(self, cond, sign):
        """first (or last) entry with cond; known to exist"""
        S, z = self.S, self.S.z3
        t = self.z(S.int(f"{self.name}_pick{len(S.c.inputs)}", 0))
        e = z.Int("pe")
        S.c.add(z.And(self.inn(t), cond(t)))
        S.c.add(z.ForAll([e], z.Implies(z.And(self.in0(e), *[e != x for x in self.removed], cond(e)), (t <= e) if sign > 0 else (t >= e)), patterns=[self.in0(e)]))
        for a, _, _ in self.added:
            S.c.add(z.Implies(z.And(self.inn(a), cond(a)), (t <= a) if sign > 0 else (t >= a)))
        return t

    def drop(self, t):
        self.removed.append(t)
        self.n = self.n - 1
        e = self.S.z3.Int("de")  # a container with an element has a positive length
        self.S.c.add(self.S.z3.ForAll([e], self.S.z3.Implies(self.inn(e), self.z(self.n) > 0)))

    def push(self, v, idx=0):
        a = self.z(self.end)
        self.added.append((a, self.z(v), self.z(idx)))
        self.end = self.end + 1
        self.n = self.n + 1
        return a

    def wrap(self, e):
        return self.S.core.wrapz(e)


class _ODict(_Entries):
    """trusted contract of collections.OrderedDict"""

    def __contains__(self, key):
        return bool(self.wrap(self.has(key)))

    def __getitem__(self, key):
        if not (key in self):
            raise KeyError(key)
        return self.wrap(self.idx(self.pick(lambda e: self.val(e) == self.z(key), 1)))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def pop(self, key, *default):
        if not (key in self):
            if default:
                return default[0]
            raise KeyError(key)
        t = self.pick(lambda e: self.val(e) == self.z(key), 1)
        v = self.wrap(self.idx(t))
        self.drop(t)
        return v

    def popitem(self, last=True):
        self.S.prove("not-empty", self.wrap(self.any_()))
        t = self.pick(lambda e: self.S.z3.BoolVal(True), -1 if last else 1)
        self.drop(t)
        return self.wrap(self.val(t)), self.wrap(self.idx(t))

    def move_to_end(self, key, last=True):
        assert last
        v = self.pop(key)
        self.push(key, v)

    def __setitem__(self, key, v):
        if key in self:
            t = self.pick(lambda e: self.val(e) == self.z(key), 1)
            i = self.z(v)
            old = self.idx
            self.idx = lambda e: self.S.z3.If(e == t, i, old(e))
        else:
            self.push(key, v)

    def __delitem__(self, key):
        self.pop(key)

    def __len__(self):
        return self.n

    def _order(self, sign):
        if not bool(self.wrap(self.any_())):
            return
        yield self.wrap(self.val(self.pick(lambda e: self.S.z3.BoolVal(True), sign)))
        raise self.S.core.Unsupported("only the first element is modelled")

    def __iter__(self):
        return self._order(1)

    def __reversed__(self):
        return self._order(-1)

    def clear(self):
        self.removed_all = True
        z = self.S.z3
        self.inn = lambda e: z.BoolVal(False)
        self.has = lambda key: z.BoolVal(False)
        self.any_ = lambda: z.BoolVal(False)
        self.n = 0


class _Deque(_ODict):
    """trusted contract of collections.deque"""

    def __bool__(self):
        return bool(self.wrap(self.any_()))

    def popleft(self):
        if not self:
            raise IndexError("pop from an empty deque")
        t = self.pick(lambda e: self.S.z3.BoolVal(True), 1)
        self.drop(t)
        return self.wrap(self.val(t))

    def append(self, x):
        self.push(x)

    def remove(self, x):
        if not (x in self):
            raise ValueError("not in deque")
        self.drop(self.pick(lambda e: self.val(e) == self.z(x), 1))


class _OSet(tools.OrderedSet):
    """an ordered set with any content"""

    def __bool__(self):
        return bool(self._data.wrap(self._data.any_()))

    def clear(self):
        self._data.clear()


def _oset(S, name="d"):
    s = _OSet()
    s._data = _ODict(S, name, True)
    s._global_index = S.int(name + "_global", 0)
    return s


def _same_but(S, d, key, label):
    """every entry with another value is there exactly if it was, unchanged; nothing new for other values"""
    z = S.z3
    e = S.core.toz(S.int("any_entry" + label, 0))
    k = S.core.toz(key)
    old = z.And(d.in0(e), d.val0(e) != k)
    now = z.And(d.inn(e), d.val(e) != k)
    S.prove("others-" + label, d.wrap(z.And(old == now, z.Implies(now, z.And(d.val(e) == d.val0(e), d.idx(e) == d.idx0(e))))))


@contract("C21", [T + "add", T + "discard", T + "popright", T + "__contains__", T + "__iter__"], trials=150)
def ordered_set(S):
    """whatever the elements: add puts the element last, once; discard removes it only; the others keep their order"""
    if not S.symbolic:
        _set_history(S, 1)
        return
    S.trusted("collections.OrderedDict keeps the order of insertion")
    z = S.z3
    s = _oset(S)
    d, key = s._data, S.int("key")
    op = S.choose("operation", ["add", "discard", "popright", "contains", "first"])
    was = S.core.wrapz(d.has(key))
    g0 = s._global_index
    if op == "add":
        s.add(key)
        S.prove("in", S.core.wrapz(d.has(key)))
        e = S.core.toz(S.int("entry", 0))
        f = S.core.toz(S.int("entry2", 0))
        S.prove("once", S.core.wrapz(z.Implies(z.And(d.inn(e), d.inn(f), d.val(e) == S.core.toz(key), d.val(f) == S.core.toz(key)), e == f)))
        S.prove("last", S.core.wrapz(z.Implies(z.And(d.inn(e), d.inn(f), d.val(e) == S.core.toz(key), d.val(f) != S.core.toz(key)), e > f)))
        old = S.core.toz(S.int("old_entry", 0))
        S.prove("index-of-first-insertion", S.core.wrapz(z.Implies(z.And(d.inn(e), d.val(e) == S.core.toz(key)),
                z.And(z.Implies(z.And(d.in0(old), d.val0(old) == S.core.toz(key)), d.idx(e) == d.idx0(old)),
                      z.Implies(z.Not(was.e), d.idx(e) == S.core.toz(g0))))))
        S.prove("counts", s._global_index == g0 + 1)
        _same_but(S, d, key, "add")
    elif op == "discard":
        try:
            s.discard(key)
        except KeyError:
            S.prove("no-error", False)
        S.prove("out", S.core.wrapz(z.Not(d.has(key))))
        _same_but(S, d, key, "discard")
    elif op == "popright":
        S.assume(S.core.wrapz(d.any_()))
        try:
            x = s.popright()
        except StopIteration:
            S.prove("not-empty", False)
            return
        e = S.core.toz(S.int("entry", 0))
        f = S.core.toz(S.int("entry2", 0))
        S.prove("was-last", S.core.wrapz(z.Implies(z.And(d.in0(e), d.in0(f), d.val0(e) == S.core.toz(x)), f <= e)))
        S.prove("was-in", len(d.removed) == 1 and S.core.wrapz(z.And(d.in0(d.removed[0]), d.val0(d.removed[0]) == S.core.toz(x))))
        S.prove("out", S.core.wrapz(z.Not(d.has(x))))
        _same_but(S, d, x, "popright")
    elif op == "contains":
        S.prove("contains", S.iff(key in s, was))
        S.prove("unchanged", not d.removed and not d.added)
    else:
        S.assume(S.core.wrapz(d.any_()))
        try:
            x = next(iter(s))
        except StopIteration:
            S.prove("not-empty", False)
            return
        e = S.core.toz(S.int("entry", 0))
        f = S.core.toz(S.int("entry2", 0))
        S.prove("iterates-from-oldest", S.core.wrapz(z.Implies(z.And(d.in0(e), d.in0(f), d.val0(e) == S.core.toz(x)), f >= e)))
        S.prove("unchanged", not d.removed and not d.added)


class _Recording(tools.OrderedSet):
    """records what is added"""

    def add(self, key):
        self.S.prove("each-key-in-order", self.S.at(self.keys_given, self.count) == key if self.S.symbolic else self.keys_given[self.count] == key)
        self.count = self.count + 1


def _init_inv(S):
    def havoc(st):
        st["self"].count = S.int(f"hcount{len(S.c.inputs)}", 0)
        return {}

    return {T + "__init__#0": Inv(lambda st, k: st["self"].count == k, havoc, name="keys-added")}


@contract("C21", [T + "__init__", T + "__len__"], trials=100, invariants=_init_inv)
def ordered_set_init(S):
    """a set made from any sequence is the empty set to which each element is added, in order; its length is the number of elements"""
    n = S.size("n", 0)
    keys = S.ints("keys", n, 0, 4)
    empty = tools.OrderedSet()
    S.prove("starts-empty", len(empty) == 0 and empty._global_index == 0 and 0 not in empty)
    s = _Recording.__new__(_Recording)
    s.S, s.keys_given, s.count = S, keys, 0
    s.__init__(keys)
    S.prove("all-added", s.count == n)
    if S.symbolic:
        t = tools.OrderedSet()
        t._data = _ODict(S, "d", True)
        S.prove("length", t.__len__() == t._data.n)
    else:
        t = tools.OrderedSet(keys)
        S.prove("length", len(t) == len(set(keys)))


def _discard_inv(S):
    def inv(st, k):
        q = st["self"].told
        z = S.z3
        e = z.Int("ie")
        u = S.core.toz(S.uid)
        return S.core.wrapz(z.And(
            z.ForAll([e], z.Implies(q.val(e) != u, q.inn(e) == q.in0(e))),
            z.ForAll([e], z.Implies(q.inn(e), q.in0(e))),
            S.core.toz(q.n) >= 0,
            z.ForAll([e], z.Implies(q.inn(e), S.core.toz(q.n) > 0))))

    def havoc(st):
        q = st["self"].told
        z = S.z3
        mid = z.Function(f"mid{len(S.c.inputs)}", z.IntSort(), z.BoolSort())
        q.n = S.int(f"midlen{len(S.c.inputs)}", 0)
        start = len(q.removed)

        def inn(e):
            return z.And(mid(e), *[e != x for x in q.removed[start:]])

        def has(key):
            e = z.Int("he")
            return z.Exists([e], z.And(inn(e), q.val0(e) == q.z(key)))

        def any_():
            e = z.Int("he")
            return z.Exists([e], inn(e))

        def pick(cond, sign):
            t = q.z(S.int(f"midpick{len(S.c.inputs)}", 0))
            e = z.Int("pe")
            S.c.add(z.And(inn(t), cond(t)))
            S.c.add(z.ForAll([e], z.Implies(z.And(mid(e), *[e != x for x in q.removed[start:]], cond(e)), (t <= e) if sign > 0 else (t >= e)), patterns=[mid(e)]))
            return t

        q.inn, q.has, q.any_, q.pick = inn, has, any_, pick
        return {}

    return {U + "discard#0": Inv(inv, havoc=havoc, measure=lambda st: st["self"].told.n, name="occurrences")}


@contract("C21", [U + "ask", U + "tell", U + "discard", U + "clear"], trials=150, invariants=_discard_inv)
def uid_queue(S):
    """whatever the queue: ask gives the oldest told uid, else the uid asked least recently, which becomes the last asked;
    tell appends; discard removes every trace of the uid and nothing else"""
    if not S.symbolic:
        _queue_history(S, 1)
        return
    S.trusted("collections.OrderedDict and deque keep the order of insertion")
    z = S.z3
    q = utils.UidQueue()
    q.told = told = _Deque(S, "told", False)
    q.asked = _oset(S, "asked")
    asked = q.asked._data
    W = S.core.wrapz
    op = S.choose("operation", ["ask", "tell", "discard", "clear"])
    uid = S.uid = S.int("uid")
    zu = S.core.toz(uid)
    e, f = S.core.toz(S.int("entry", 0)), S.core.toz(S.int("entry2", 0))
    if op == "ask":
        t0, a0 = W(told.any_()), W(asked.any_())
        try:
            x = q.ask()
        except RuntimeError:
            S.prove("refuses-only-if-empty", S.lnot(S.lor(t0, a0)))
            return
        zx = S.core.toz(x)
        S.prove("not-empty", S.lor(t0, a0))
        if told.removed:
            r = told.removed[0]
            S.prove("oldest-told", W(z.Implies(told.in0(e), e >= r)))
            S.prove("told-entry", S.land(W(z.And(told.in0(r), told.val0(r) == zx)), len(told.removed) == 1))
        else:
            S.prove("prefers-told", S.lnot(t0))
            S.prove("asked-least-recently", W(z.Implies(z.And(asked.in0(e), asked.in0(f), asked.val0(e) == zx), f >= e)))
            S.prove("was-asked", W(z.Exists([z.Int("w")], z.And(asked.in0(z.Int("w")), asked.val0(z.Int("w")) == zx))))
        S.prove("nothing-told", not told.added)
        S.prove("now-asked", W(asked.has(x)))
        S.prove("asked-last", W(z.Implies(z.And(asked.inn(e), asked.inn(f), asked.val(e) == zx, asked.val(f) != zx), e > f)))
        S.prove("asked-once", W(z.Implies(z.And(asked.inn(e), asked.inn(f), asked.val(e) == zx, asked.val(f) == zx), e == f)))
        _same_but(S, asked, x, "ask")
    elif op == "tell":
        q.tell(uid)
        S.prove("told-last", len(told.added) == 1 and not told.removed and W(told.added[0][1] == zu))
        S.prove("not-asked-anymore", W(z.Not(asked.has(uid))))
        _same_but(S, asked, uid, "tell")
    elif op == "discard":
        there = W(z.Or(asked.has(uid), told.has(uid)))
        try:
            q.discard(uid)
        except (ValueError, KeyError):
            S.prove("refuses-only-unknown", S.lnot(there))
            S.prove("refusal-changes-nothing", not told.removed and not asked.removed)
            return
        S.prove("known", there)
        S.prove("not-asked", W(z.Not(asked.has(uid))))
        S.prove("not-told", W(z.Not(told.has(uid))))
        _same_but(S, asked, uid, "discard-asked")
        S.prove("other-told-kept", W(z.Implies(told.val0(e) != zu, told.inn(e) == told.in0(e))))
        S.prove("nothing-new", not told.added and not asked.added)
    else:
        q.clear()
        S.prove("empty", W(z.Not(z.Or(told.any_(), asked.any_()))))


# ------------------------------------------------------------------------------------- histories on the real containers
def _set_history(S, n):
    s, ref, first, count = tools.OrderedSet(), [], {}, 0
    init = S.ints("initial", S.size("ninitial", 0, 5), 0, 5)
    if S.bool("from_init"):
        s = tools.OrderedSet(init)
    else:
        for x in init:
            s.add(x)
    for x in init:
        if x in ref:
            ref.remove(x)
        else:
            first[x] = count
        ref.append(x)
        count += 1
    for k in range(n):
        op = S.choose(f"op{k}", ["add", "discard", "popright", "pop", "isub", "ior", "iand", "ixor", "ops"])
        x = S.int(f"x{k}", 0, 6)
        other = S.ints(f"other{k}", 2, 0, 6)
        if op == "add":
            s.add(x)
            ref = [y for y in ref if y != x] + [x]
        elif op == "discard":
            s.discard(x)
            ref = [y for y in ref if y != x]
        elif op == "popright" and ref:
            S.prove("popright", s.popright() == ref.pop())
        elif op == "pop" and ref:
            S.prove("pop", s.pop() == ref.pop(0))
        elif op == "isub":
            s -= set(other)
            ref = [y for y in ref if y not in other]
        elif op == "ior":
            s |= other
            for y in other:
                ref = [v for v in ref if v != y] + [y]
        elif op == "iand":
            s &= set(other)
            ref = [y for y in ref if y in other]
        elif op == "ixor":
            o = tools.OrderedSet(other)
            s ^= o
            S.prove("xor-content", set(s) == set(ref) ^ set(other))
            ref = list(s)
        elif op == "ops":
            o = tools.OrderedSet(other)
            S.prove("difference", list(s - o) == [y for y in ref if y not in other])
            S.prove("intersection", set(s & o) == set(ref) & set(other))
            S.prove("union", set(s | o) == set(ref) | set(other))
            S.prove("comparison", (s == set(ref)) and (s <= set(ref) | set(other)))
        S.prove("order", list(s) == ref, got=list(s), want=list(ref))
        S.prove("length", len(s) == len(ref))
        S.prove("membership", all((y in s) == (y in ref) for y in range(8)))


@bounded("C21", [T + "add", T + "discard", T + "popright", T + "__len__", T + "__init__"], trials=400, bound="up to 30 operations on 7 elements")
def set_histories(S):
    _set_history(S, S.size("nops", 0, 30))


def _queue_history(S, n):
    q, told, asked = utils.UidQueue(), [], []
    for k in range(n):
        op = S.choose(f"op{k}", ["ask", "ask", "tell", "tell", "tell_known", "discard", "add", "clear"])
        u = "abcdefg"[S.int(f"u{k}", 0, 6)]
        if op == "clear" and S.int(f"c{k}", 0, 5):
            op = "ask"
        if op == "ask":
            try:
                x = q.ask()
            except RuntimeError:
                S.prove("empty", not told and not asked)
            else:
                S.prove("not-empty", bool(told or asked))
                w = told.pop(0) if told else asked[0]
                S.prove("ask-order", x == w, got=x, want=w)
                asked = [y for y in asked if y != w] + [w]
        elif op == "tell_known" and asked:
            u = asked[S.int(f"a{k}", 0, 6) % len(asked)]
            q.tell(u)
            told.append(u)
            asked.remove(u)
        elif op == "tell" or op == "tell_known":
            q.tell(u)
            told.append(u)
            asked = [y for y in asked if y != u]
        elif op == "add":
            q.asked.add(u)
            asked = [y for y in asked if y != u] + [u]
        elif op == "discard":
            known = u in told or u in asked
            try:
                q.discard(u)
            except (ValueError, KeyError):
                S.prove("refuses-only-unknown", not known)
            else:
                S.prove("known", known)
                told, asked = [y for y in told if y != u], [y for y in asked if y != u]
        elif op == "clear":
            q.clear()
            told, asked = [], []
        S.prove("told", list(q.told) == told, got=list(q.told), want=list(told))
        S.prove("asked", list(q.asked) == asked, got=list(q.asked), want=list(asked))


@bounded("C21", [U + "ask", U + "tell", U + "discard", U + "clear"], trials=400, bound="up to 40 operations on 7 uids")
def queue_histories(S):
    _queue_history(S, S.size("nops", 0, 40))


@bounded("C21", [U + "ask", U + "tell"], trials=150, bound="up to 8 uids, 40 operations")
def fairness(S):
    """each of the given uids is asked before any is asked twice, while they are told back at most once per ask, in any order"""
    q = utils.UidQueue()
    n = S.size("n", 1, 8)
    for k in range(n):
        q.tell(k)
    asked, out = [], []
    for k in range(S.size("nops", 1, 40)):
        if asked and S.int(f"op{k}", 0, 2) == 0:
            u = asked.pop(S.int(f"which{k}", 0, 20) % len(asked))
            q.tell(u)
        else:
            u = q.ask()
            out.append(u)
            if u in asked:
                asked.remove(u)
            asked.append(u)
    S.prove("each-before-twice", len(set(out[:n])) == min(n, len(out)))
    S.prove("none-lost", sorted(list(q.told) + list(q.asked)) == list(range(n)))
