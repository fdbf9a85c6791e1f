"""Mechanical source-to-source lowering of /repo's modules, redone from the working tree on every run.

What the lowering does (and the only things it does):
  * ``for``/``while`` statements keep their body, and gain a second copy of that same body as a closure which is
    used only when the iterable (or the loop condition) is symbolic;
  * list/set/dict comprehensions and generator expressions become calls ``__vc__.comp(kind, iterable, lambda, ...)``
    made of the very same sub-expressions (concrete iterables are evaluated natively);
  * calls of builtin names (``len``, ``float``, ``min``...) go through ``__vc__.b(name)`` which returns the builtin
    itself unless an argument is symbolic;
  * zero-argument ``super()`` is spelled out; annotations of local variables (never evaluated by Python) are dropped;
  * after import, module globals bound to numpy / math / scipy.stats / itertools are wrapped by pass-through shims.
Nothing else is dropped: statements, expressions, classes, decorators, defaults and docstrings are those of the file.
"""
import ast
import importlib.abc
import importlib.machinery
import sys
import types
import typing as tp

BUILTINS = {
    "float", "int", "bool", "len", "range", "enumerate", "zip", "reversed", "sorted", "min", "max", "sum", "any",
    "all", "list", "tuple", "set", "dict", "frozenset", "abs", "round", "isinstance", "iter", "next", "map",
    "filter", "hash", "str", "repr", "divmod", "type", "id",
}


def _stored_names(node: ast.AST) -> tp.Set[str]:
    """names bound in this function scope (not nested scopes)"""
    out: tp.Set[str] = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n: ast.Name) -> None:
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n: tp.Any) -> None:
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n: ast.Lambda) -> None:
            pass

        def _comp(self, n: tp.Any) -> None:
            pass

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_ExceptHandler(self, n: ast.ExceptHandler) -> None:
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def _imp(self, n: tp.Any) -> None:
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_Import = visit_ImportFrom = _imp

    v = V()
    for s in getattr(node, "body", []):
        v.visit(s)
    return out


def _globals_decl(node: ast.AST) -> tp.Set[str]:
    out: tp.Set[str] = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
    return out


def _contains(nodes: tp.Iterable[ast.AST], kinds: tp.Any) -> bool:
    """whether nodes contain a node kind, not descending into nested functions"""
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class _Signals(ast.NodeTransformer):
    """break/continue/return of a loop body lifted into a function -> returned signals"""

    def __init__(self) -> None:
        self.depth = 0

    def _loop(self, n: tp.Any) -> tp.Any:
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_For = visit_While = _loop

    def _skip(self, n: tp.Any) -> tp.Any:
        return n

    visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = _skip

    def visit_Break(self, n: ast.Break) -> tp.Any:
        return n if self.depth else ast.copy_location(_p("return __vc__.BREAK"), n)

    def visit_Continue(self, n: ast.Continue) -> tp.Any:
        return n if self.depth else ast.copy_location(_p("return __vc__.NEXT"), n)

    def visit_Return(self, n: ast.Return) -> tp.Any:
        r = _p("return ('ret', None)")
        if n.value is not None:
            r.value.elts[1] = n.value
        return ast.copy_location(r, n)


def _p(src: str) -> tp.Any:
    return ast.parse(src).body[0]


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname: str) -> None:
        self.modname = modname
        self.fstack: tp.List[tp.Dict[str, tp.Any]] = []
        self.qual: tp.List[str] = []
        self.count = 0

    def visit_ClassDef(self, n: ast.ClassDef) -> tp.Any:
        self.qual.append(n.name)
        saved, self.fstack = self.fstack, []
        n.body = [self.visit(s) for s in n.body]
        self.fstack = saved
        self.qual.pop()
        return n

    def visit_FunctionDef(self, n: tp.Any) -> tp.Any:
        args = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        first = args[0] if args else None
        for a in (n.args.vararg, n.args.kwarg):
            if a is not None:
                args.append(a.arg)
        decl = set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    decl.update(x.names)
        loc = (_stored_names(n) | set(args)) - decl
        self.qual.append(n.name)
        self.fstack.append({"locals": loc, "first": first, "loops": 0})
        n.body = _flatten([self.visit(s) for s in n.body])
        self.fstack.pop()
        self.qual.pop()
        return n

    def visit_Lambda(self, n: ast.Lambda) -> tp.Any:
        if not self.fstack:
            return n
        args = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        self.fstack.append({"locals": set(args), "first": self.fstack[-1]["first"], "loops": 0, "lambda": True})
        n.body = self.visit(n.body)
        self.fstack.pop()
        return n

    def visit_AnnAssign(self, n: ast.AnnAssign) -> tp.Any:
        self.generic_visit(n)
        if not self.fstack or not isinstance(n.target, ast.Name):
            return n
        if n.value is None:  # a bare local annotation has no effect
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    # ---- expressions
    def visit_Call(self, n: ast.Call) -> tp.Any:
        self.generic_visit(n)
        if not self.fstack:
            return n
        if isinstance(n.func, ast.Name):
            if n.func.id == "super" and not n.args:
                first = self.fstack[-1]["first"]
                if first:
                    n.args = [ast.Name("__class__", ast.Load()), ast.Name(first, ast.Load())]
                return n
            if n.func.id in BUILTINS or n.func.id in self.fstack[-1].get("locals", ()):
                n.func = ast.Call(
                    ast.Attribute(ast.Name("__vc__", ast.Load()), "b", ast.Load()), [n.func], []
                )
        elif isinstance(n.func, (ast.IfExp, ast.BoolOp, ast.Subscript)):
            n.func = ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "b", ast.Load()), [n.func], [])
        return n

    def _comp(self, n: tp.Any, kind: str) -> tp.Any:
        if not self.fstack or len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        bad = _contains([n], (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await))
        if bad:
            return self.generic_visit(n)
        g = n.generators[0]
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        it = self.visit(g.iter)
        self.fstack.append(dict(self.fstack[-1], locals=names))
        conds = [self.visit(c) for c in g.ifs]
        if kind == "dict":
            elt: tp.Any = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
        else:
            elt = self.visit(n.elt)
        self.fstack.pop()

        def lam(body: ast.AST) -> ast.AST:
            return _target_lambda(g.target, body)

        if not conds:
            cond: ast.AST = ast.Constant(None)
        else:
            cond = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        return ast.copy_location(
            ast.Call(
                ast.Attribute(ast.Name("__vc__", ast.Load()), "comp", ast.Load()),
                [ast.Constant(kind), it, lam(elt), cond],
                [],
            ),
            n,
        )

    def visit_ListComp(self, n: ast.ListComp) -> tp.Any:
        return self._comp(n, "list")

    def visit_SetComp(self, n: ast.SetComp) -> tp.Any:
        return self._comp(n, "set")

    def visit_DictComp(self, n: ast.DictComp) -> tp.Any:
        return self._comp(n, "dict")

    def visit_GeneratorExp(self, n: ast.GeneratorExp) -> tp.Any:
        return self._comp(n, "gen")

    # ---- loops
    def _lift(self, n: tp.Any, k: int, names: tp.List[str], body: tp.List[ast.stmt], target: tp.Any) -> tp.List[tp.Any]:
        sig = _Signals()
        b = [sig.visit(s) for s in body]
        nl = [ast.Nonlocal(list(names))] if names else []
        pre = [] if target is None else [ast.Assign([target], ast.Name("__vc_x", ast.Load()))]
        fbody = _p(f"def __vc_body{k}(__vc_x): pass")
        fbody.body = nl + pre + b + [_p("return __vc__.NEXT")]
        fget = _p(f"def __vc_get{k}():\n  __vc_d = {{}}\n  return __vc_d")
        ins = [_p(f"try:\n  __vc_d[{x!r}] = {x}\nexcept NameError:\n  pass") for x in names]
        fget.body = fget.body[:1] + ins + fget.body[1:]
        fset = _p(f"def __vc_set{k}(__vc_d): pass")
        fset.body = (nl and [ast.Nonlocal(list(names))]) + [
            _p(f"if {x!r} in __vc_d: {x} = __vc_d[{x!r}]") for x in names
        ]
        if not fset.body:
            fset.body = [_p("pass")]
        return [fbody, fget, fset]

    def _loopinfo(self, n: tp.Any) -> tp.Any:
        f = self.fstack[-1]
        used = {x.id for s in n.body + ([n.target] if isinstance(n, ast.For) else [n.test]) for x in ast.walk(s) if isinstance(x, ast.Name)}
        names = sorted(used & f["locals"])
        stored = set()
        for s in n.body + ([n.target] if isinstance(n, ast.For) else []):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stored.add(x.id)
        idx = f["loops"]
        f["loops"] += 1
        self.count += 1
        key = f"{self.modname}:{'.'.join(self.qual)}#{idx}"
        mutated = set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    if x.attr in ("append", "extend", "add", "insert", "pop", "remove", "update", "clear", "sort"):
                        mutated.add(x.value.id)
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and not isinstance(x.ctx, ast.Load):
                    mutated.add(x.value.id)
        return self.count, names, (sorted(stored & f["locals"]), sorted(mutated & f["locals"])), key

    def visit_For(self, n: ast.For) -> tp.Any:
        if not self.fstack or _contains(n.body, (ast.Yield, ast.YieldFrom, ast.Await)):
            return self.generic_visit(n)
        k, names, stored, key = self._loopinfo(n)
        import copy as _c

        n.iter = self.visit(n.iter)
        n.body = _flatten([self.visit(s) for s in n.body])
        n.orelse = _flatten([self.visit(s) for s in n.orelse])
        lifted = self._lift(n, k, names, _c.deepcopy(n.body), _c.deepcopy(n.target))
        assign = _p(f"__vc_it{k} = __vc__.it(0)")
        assign.value.args = [n.iter]
        n.iter = ast.Name(f"__vc_it{k}", ast.Load())
        top = _p(f"if __vc__.issym(__vc_it{k}): pass\nelse: pass")
        run = _p(
            f"__vc_sig{k} = __vc__.forloop(__vc_it{k}, __vc_body{k}, __vc_get{k}, __vc_set{k}, {key!r}, {stored!r})"
        )
        ret = _p(f"if __vc_sig{k}[0] == 'ret': return __vc_sig{k}[1]")
        top.body = lifted + [run, ret]
        if n.orelse:
            els = _p(f"if __vc_sig{k}[0] == 'next': pass")
            els.body = _c.deepcopy(n.orelse)
            top.body.append(els)
        top.orelse = [n]
        for s in (assign, top):
            ast.copy_location(s, n)
        return [assign, top]

    def visit_While(self, n: ast.While) -> tp.Any:
        if not self.fstack or _contains(n.body, (ast.Yield, ast.YieldFrom, ast.Await)) or n.orelse:
            return self.generic_visit(n)
        k, names, stored, key = self._loopinfo(n)
        import copy as _c

        n.test = self.visit(n.test)
        n.body = _flatten([self.visit(s) for s in n.body])
        lifted = self._lift(n, k, names, _c.deepcopy(n.body), None)
        top = _p(f"if __vc__.wantloop({key!r}): pass\nelse: pass")
        fcond = _p(f"def __vc_cond{k}(): return 0")
        fcond.body[0].value = _c.deepcopy(n.test)
        run = _p(
            f"__vc_sig{k} = __vc__.whileloop(__vc_cond{k}, __vc_body{k}, __vc_get{k}, __vc_set{k}, {key!r}, {stored!r})"
        )
        ret = _p(f"if __vc_sig{k}[0] == 'ret': return __vc_sig{k}[1]")
        top.body = lifted + [fcond, run, ret]
        top.orelse = [n]
        ast.copy_location(top, n)
        return top


def _target_lambda(target: ast.AST, body: ast.AST) -> ast.Lambda:
    """lambda taking ONE element and destructuring it as `target` does"""
    import copy as _c

    target = _c.deepcopy(target)
    if isinstance(target, ast.Name):
        a = ast.arguments([], [ast.arg(target.id)], None, [], [], None, [])
        return ast.Lambda(a, body)
    assert isinstance(target, (ast.Tuple, ast.List))
    # lambda __vc_e: (lambda a, __t1: (lambda b, c: BODY)(*__t1))(*__vc_e)
    params, inner = [], body
    for i, e in enumerate(target.elts):
        if isinstance(e, ast.Name):
            params.append(ast.arg(e.id))
        else:
            nm = f"__vc_t{i}"
            params.append(ast.arg(nm))
            inner = ast.Call(_target_lambda(e, inner), [ast.Name(nm, ast.Load())], [])
    lam = ast.Lambda(ast.arguments([], params, None, [], [], None, []), inner)
    star = ast.Starred(ast.Name("__vc_e", ast.Load()), ast.Load())
    call = ast.Call(lam, [star], [])
    return ast.Lambda(ast.arguments([], [ast.arg("__vc_e")], None, [], [], None, []), call)


def _flatten(stmts: tp.List[tp.Any]) -> tp.List[tp.Any]:
    out: tp.List[tp.Any] = []
    for s in stmts:
        if isinstance(s, list):
            out.extend(s)
        elif s is not None:
            out.append(s)
    return out


def _fix_bodies(tree: ast.AST) -> None:
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list):
                setattr(n, f, _flatten(v))


def lower(source: str, filename: str, modname: str) -> types.CodeType:
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    _fix_bodies(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class _Loader(importlib.machinery.SourceFileLoader):
    vc: tp.Any = None

    def get_code(self, fullname: str) -> tp.Any:
        path = self.get_filename(fullname)
        data = self.get_data(path)
        return lower(importlib.util.decode_source(data), path, fullname)  # type: ignore

    def exec_module(self, module: types.ModuleType) -> None:
        module.__dict__["__vc__"] = self.vc
        super().exec_module(module)
        self.vc.wrap_globals(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, vc: tp.Any, accept: tp.Callable[[str], bool]) -> None:
        self.vc = vc
        self.accept = accept
        self.lowered: tp.List[str] = []

    def find_spec(self, fullname: str, path: tp.Any, target: tp.Any = None) -> tp.Any:
        if not fullname.startswith("nevergrad") or not self.accept(fullname):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        ld = _Loader(spec.loader.name, spec.loader.path)
        ld.vc = self.vc
        spec.loader = ld
        self.lowered.append(fullname)
        return spec


def install(vc: tp.Any, accept: tp.Callable[[str], bool] = lambda m: True) -> Finder:
    f = Finder(vc, accept)
    sys.meta_path.insert(0, f)
    return f
