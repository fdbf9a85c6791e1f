"""loop structure of the functions under contract: the loop invariants of a contract are attached to the loops of a function by their order; when the tree
checked has other loops in this function, the invariants say nothing about it and the contract is reported as not re-established, not as violated"""
import ast
import json
import os
import typing as tp

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")


def _loops(node: ast.AST, depth: int, out: tp.List[str]) -> None:
    for n in ast.iter_child_nodes(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            out.append(("for" if isinstance(n, ast.For) else "while") + str(depth))
            _loops(n, depth + 1, out)
        else:
            _loops(n, depth, out)


def of_module(repo: str, mod: str) -> tp.Dict[str, tp.List[str]]:
    """loops of each function of a module, in order"""
    path = os.path.join(repo, *mod.split("."))
    path = path + ".py" if os.path.exists(path + ".py") else os.path.join(path, "__init__.py")
    out: tp.Dict[str, tp.List[str]] = {}

    def walk(node: ast.AST, qual: tp.List[str]) -> None:
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = qual + [n.name]
                if not isinstance(n, ast.ClassDef):
                    ls: tp.List[str] = []
                    _loops(n, 0, ls)
                    out[f"{mod}:{'.'.join(q)}"] = ls
                walk(n, q)
            else:
                walk(n, qual)

    try:
        with open(path) as f:
            walk(ast.parse(f.read()), [])
    except (OSError, SyntaxError):
        pass
    return out


def changed(repo: str, funcs: tp.Iterable[str]) -> tp.List[str]:
    """functions whose loops are not those of the tree the invariants were written for"""
    with open(PATH) as f:
        base = json.load(f)
    mods: tp.Dict[str, tp.Dict[str, tp.List[str]]] = {}
    out = []
    for fn in sorted(set(funcs)):
        mod = fn.split(":")[0]
        if mod not in mods:
            mods[mod] = of_module(repo, mod)
        if fn in base and mods[mod].get(fn) != base[fn]:
            out.append(fn)
    return out


def write(repo: str, funcs: tp.Iterable[str]) -> None:
    out = {}
    for fn in sorted(set(funcs)):
        ls = of_module(repo, fn.split(":")[0]).get(fn)
        if ls is not None:
            out[fn] = ls
    with open(PATH, "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
