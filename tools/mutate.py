"""python tools/mutate.py K SEED SECONDS: random small changes in the functions the contracts are about (on a scratch copy), to find
changes which neither the checks nor the tests of the repository see; survivors are appended to /tmp/mut/survivors.<K>"""
import ast, glob, json, os, random, shutil, subprocess, sys, time

K, SEED, SECS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
ONLY = sys.argv[4].split(",") if len(sys.argv) > 4 else None
os.makedirs("/tmp/mut", exist_ok=True)
RC, VF = f"/tmp/mut/repo{K}", f"/tmp/mut/verif{K}"
for src, dst in (("/repo", RC), ("/verif", VF)):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["cp", "-a", src, dst], check=True)
test = open("/opt/vp/test.sh").read().replace("/repo", RC).replace("/opt/vp/report.xml", RC + ".xml")
open(RC + ".sh", "w").write(test)
BASE = json.load(open("/opt/vp/BASELINE.json"))
BASE = set(BASE.get("passed", BASE.get("stable", [])) if isinstance(BASE, dict) else BASE)
rng = random.Random(SEED)
funcs = {}
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    c = json.load(open(f))["coverage"]
    prop = os.path.basename(f)[:-5]
    for x in list(c["functions_under_contract"]) + [y for b in c["bounded_standins"] for y in b["functions"]]:
        if ".benchmark." not in x:
            funcs.setdefault(x, set()).add(prop)
byprop = {}
for x, ps in funcs.items():
    for p in ps:
        byprop.setdefault(p, []).append(x)
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def find(tree, qual):
    node = tree
    for part in qual.split("."):
        node = next((n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
        if node is None:
            return None
    return node


def variants(n):
    """replacement nodes"""
    import copy
    out = []

    def v(**k):
        c = copy.deepcopy(n)
        for a, b in k.items():
            setattr(c, a, b)
        out.append(c)

    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            v(ops=[o()])
    elif isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            v(op=o())
        if isinstance(n.op, (ast.Sub, ast.Div)):
            v(left=n.right, right=n.left)
    elif isinstance(n, ast.BoolOp):
        v(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for x in n.values:
            out.append(x)
    elif isinstance(n, ast.UnaryOp):
        out.append(n.operand)
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            v(value=not n.value)
        elif isinstance(n.value, int):
            v(value=n.value + 1)
            v(value=n.value - 1)
        elif isinstance(n.value, float):
            v(value=n.value * 2)
            v(value=-n.value)
    elif isinstance(n, ast.If):
        pass
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        out.append(ast.Pass())
    elif isinstance(n, ast.AugAssign):
        out.append(ast.Pass())
        v(op=ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        out.append(ast.Pass())
    elif isinstance(n, ast.IfExp):
        out.extend([n.body, n.orelse])
    elif isinstance(n, ast.Call):
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
        sw = {"min": "max", "max": "min", "any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum", "floor": "ceil", "ceil": "floor", "argmin": "argmax",
              "argmax": "argmin", "append": "appendleft", "popleft": "pop", "zeros": "ones", "ones": "zeros", "argsort": "sort"}.get(nm)
        if sw:
            c = copy.deepcopy(n)
            if isinstance(c.func, ast.Attribute):
                c.func.attr = sw
            else:
                c.func.id = sw
            out.append(c)
        if len(n.args) >= 2:
            v(args=[n.args[1], n.args[0]] + n.args[2:])
        for k in range(len(n.keywords)):
            v(keywords=n.keywords[:k] + n.keywords[k + 1:])
        if isinstance(n.func, ast.Attribute) and nm in ("copy", "spawn_child", "freeze", "abs", "sqrt") and len(n.args) <= 1:
            out.append(n.args[0] if n.args else n.func.value)
        elif nm in ("list", "set", "abs", "float", "int", "sorted", "dict") and len(n.args) == 1 and not n.keywords:
            out.append(n.args[0])
    return out


def mutants(path, qual):
    src = open(path).read()
    tree = ast.parse(src)
    fn = find(tree, qual)
    if not isinstance(fn, ast.FunctionDef):
        return []
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("warn", "_warn", "debug", "info"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.AnnAssign,)):
            skip |= {id(x) for x in ast.walk(n.annotation)}
    for a in ast.walk(fn.args):
        skip.add(id(a)) if not isinstance(a, ast.Constant) else None
    if fn.returns:
        skip |= {id(x) for x in ast.walk(fn.returns)}
    for a in fn.args.args + fn.args.kwonlyargs:
        if a.annotation:
            skip |= {id(x) for x in ast.walk(a.annotation)}
    for d in fn.decorator_list:
        skip |= {id(x) for x in ast.walk(d)}
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    for n in ast.walk(fn):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        for m in variants(n):
            i, j = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
            t = ast.unparse(ast.fix_missing_locations(m))
            if isinstance(m, ast.expr):
                t = f"({t})"
            new = (b[:i] + t.encode() + b[j:]).decode()
            try:
                if ast.dump(ast.parse(new)) == ast.dump(tree):
                    continue
            except SyntaxError:
                continue
            out.append(new)
    return out


end = time.time() + SECS
env = dict(os.environ, NGVC_REPO=RC)
seen, stats = set(), {"caught": 0, "tests": 0, "alive": 0}
while time.time() < end:
    prop = rng.choice([p for p in sorted(byprop) if ONLY is None or p in ONLY])
    f = rng.choice(sorted(byprop[prop]))
    mod, qual = f.split(":")
    rel = mod.replace(".", "/") + ".py"
    if not os.path.exists(f"{RC}/{rel}"):
        continue
    ms = mutants(f"{RC}/{rel}", qual)
    if not ms:
        continue
    new = rng.choice(ms)
    if new in seen:
        continue
    seen.add(new)
    open(f"{RC}/{rel}", "w").write(new)
    diff = subprocess.run(["git", "diff", "-U1"], cwd=RC, capture_output=True, text=True).stdout
    caught = None
    for p in sorted(funcs[f], key=lambda x: x != prop):
        if p == "C14" and prop != "C14":
            continue
        try:  # quick look first
            cj = f"/tmp/mut/c{K}.json"
            os.path.exists(cj) and os.remove(cj)
            e2 = dict(os.environ, PYTHONPATH=VF, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", NGVC_REPO=RC)
            subprocess.run(["/opt/venv/bin/python", "-m", "ngvc.worker", "concrete", p, cj, json.dumps({"seed": 1, "seconds": 20, "mult": 0.3, "jobs": 3})], cwd=VF, env=e2, capture_output=True, timeout=200)
            d = json.load(open(cj))
            if any(isinstance(x, dict) and x.get("status") == "violation" for x in d.values()):
                caught, nf = p, ""
                break
        except Exception as e:
            caught, nf = p, "quick:" + str(e)[:60]
            break
        try:
            r = subprocess.run(["/opt/venv/bin/python", "check.py", p], cwd=VF, env=env, capture_output=True, text=True, timeout=400)
            if r.returncode != 0:
                caught = p
                nf = "no-failing" if "no-failing-input" in r.stdout and not any("VIOLATION" in l and "no-failing" not in l for l in r.stdout.splitlines()) else ""
                break
        except subprocess.TimeoutExpired:
            caught, nf = p, "timeout"
            break
    if caught:
        stats["caught"] += 1
        with open(f"/tmp/mut/caught.{K}", "a") as o:
            o.write(f"### {caught} {nf} {f}\n{diff}\n" if nf else f"### {caught} {f}\n")
    else:
        try:
            os.path.exists(RC + ".json") and os.remove(RC + ".json")
            subprocess.run(["bash", RC + ".sh", RC + ".json"], cwd=RC, capture_output=True, timeout=400)
            r = json.load(open(RC + ".json"))
            missing = BASE - set(r.get("passed", r if isinstance(r, list) else []))
        except Exception as e:
            missing = {str(e)[:100]}
        stats["tests" if missing else "alive"] += 1
        with open(f"/tmp/mut/{'killed' if missing else 'survivors'}.{K}", "a") as o:
            o.write(f"### {prop} {sorted(funcs[f])} {f} {len(missing)} {sorted(missing)[:2]}\n{diff}\n")
    print(time.strftime("%H:%M"), prop, f, caught or "-", stats, flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=RC)
