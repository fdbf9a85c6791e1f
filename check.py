#!/usr/bin/env python3
"""python check.py C01            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
python check.py --replay FILE  re-run a recorded violation on the current tree"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("NGVC_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
    return e


def worker(mode, prop, opts, out, cwd, wait=True, timeout=800):
    p = subprocess.Popen([PY, "-m", "ngvc.worker", mode, prop, out, json.dumps(opts)], env=env(), cwd=cwd,
                         stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))
    if not wait:
        return p
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
    return load(out)


def load(out):
    try:
        with open(out) as f:
            return json.load(f)
    except Exception as e:
        err = ""
        try:
            err = open(out + ".err").read()[-1500:]
        except OSError:
            pass
        return {"__failed__": f"{e}: {err}"}


def known():
    """known-findings file: 'finding: property=Cxx spec=<name> label=<label> <what fails>' and 'fixed: ...' lines"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                kv = dict(x.split("=", 1) for x in line.split()[1:4])
                out.append((kv["property"], kv["spec"], kv["label"], line.split(None, 4)[4]))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"ngvc_{prop}_")
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    meta = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in meta["checks"] if c["property"] == prop), "proof")
    sec = 150 if thorough else 20
    mult = 15 if thorough else 1
    c_out, s_out = os.path.join(tmp, "c.json"), os.path.join(tmp, "s.json")
    pc = worker("concrete", prop, {"seed": seed, "seconds": sec, "mult": mult, "jobs": 3}, c_out, tmp, wait=False)
    ps = worker("symbolic", prop, {"jobs": 5, "timeout": 600 if thorough else 240}, s_out, tmp, wait=False)
    deadline = t0 + (3000 if thorough else 560)
    for p in (ps, pc):
        try:
            p.wait(max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
    conc, symb = load(c_out), load(s_out)
    if "__failed__" in conc and "__failed__" in symb:
        # the package itself does not import on this tree
        print(f"ERROR the workers failed: {conc['__failed__']}\n{symb['__failed__']}")
        return 2
    if "__failed__" in conc or "__failed__" in symb:
        print("ERROR a worker failed:", conc.get("__failed__"), symb.get("__failed__"))
        return 2
    specs = symb.pop("__meta__")["specs"]
    conc.pop("__meta__", None)
    lowered = symb.pop("__lowered__", {})
    firm, soft, notes = [], [], []
    # ---- concrete results
    evals = distinct = 0
    samples, bounded = [], []
    for name, r in conc.items():
        if r.get("status") == "violation":
            v = r["violation"]
            firm.append({"spec": name, "label": v["label"], "values": v["values"], "seed": v["seed"], "info": v.get("info"), "how": "contract-guided search on the untouched code"})
        elif r.get("status") != "ok":
            notes.append(f"concrete {name}: {r.get('status')} {r.get('error') or r.get('errors')}")
        evals += r.get("n", 0)
        distinct += r.get("distinct", 0)
        if len(samples) < 4:
            samples += [{"contract": name, "inputs": x} for x in r.get("samples", [])[:1]]
        if specs.get(name, {}).get("mode") == "bounded":
            bounded.append({"contract": name, "functions": specs[name]["funcs"], "bound": specs[name]["bound"], "executions": r.get("n", 0), "assertions": sum(r.get("proved", {}).values()) if r.get("proved") else 0})
    # ---- symbolic results
    nobl = ndis = 0
    backends, solver_s, trusted, funcs, unproved, loops = {}, 0.0, set(), [], [], {}
    obl_list = []
    for name, r in symb.items():
        if "obligations" not in r:
            notes.append(f"symbolic {name}: {r.get('status')} {r.get('error')}")
            unproved.append(name)
            continue
        solver_s += r["solver_s"]
        trusted |= set(r["trusted"])
        loops.update(r["loops"])
        ok = r["status"] == "ok"
        part = specs.get(name, {}).get("mode") == "partial"
        if part:
            bounded.append({"contract": name, "functions": r["funcs"], "bound": specs[name]["bound"], "symbolic_obligations": sum(o["n"] for o in r["obligations"]), "discharged": sum(o["discharged"] for o in r["obligations"])})
        for o in r["obligations"]:
            if part:
                ok = ok and o["n"] == o["discharged"]
                continue
            nobl += o["n"]
            ndis += o["discharged"]
            ok = ok and o["n"] == o["discharged"]
            for b, k in o["backend"].items():
                backends[b] = backends.get(b, 0) + k
        if not part:
          obl_list.append({"contract": name, "functions": r["funcs"], "paths": r["paths"], "obligations": sum(o["n"] for o in r["obligations"]), "discharged": sum(o["discharged"] for o in r["obligations"]), "solver_s": round(r["solver_s"], 3)})
        if r["status"] != "ok":
            notes.append(f"symbolic {name}: {r['status']} {r['error']}")
            unproved.append(name)
        elif not r["obligations"] or r["covered"].get("path-end", 0) == 0:
            if not r["failures"]:
                notes.append(f"symbolic {name}: vacuous (no reachable obligation)")
                unproved.append(name)
                ok = False
        if ok and not part:
            funcs += r["funcs"]
        for f in r["failures"]:
            soft.append({"spec": name, "label": f["obligation"], "values": f.get("model") or {}, "status": f["status"], "goal": f.get("goal"), "info": f.get("info")})
    # ---- replay counter-models, then search deeper
    soft_left, restructured = [], []
    have = {f["spec"] for f in firm}
    todo = [f for f in soft if f["spec"] not in have]
    if todo:
        items = [{"spec": f["spec"], "values": f["values"], "seed": k} for f in todo for k in range(3)]
        r = worker("replay", prop, {"items": items}, os.path.join(tmp, "r.json"), tmp, timeout=120)
        for i, it in enumerate(items):
            x = r.get(str(i), {})
            if x.get("status") == "violation":
                firm.append({"spec": it["spec"], "label": x["label"], "values": x["values"], "seed": it["seed"], "info": x.get("info"), "how": "verifier counterexample replayed on the untouched code"})
        have = {f["spec"] for f in firm}
        soft_left = [f for f in todo if f["spec"] not in have]
        # an error of these types seen only on the symbolic values is a limit of the engine, not of the code
        for f in list(soft_left):
            if f["label"] in ("no-exception[TypeError]", "no-exception[AttributeError]", "no-exception[NotImplementedError]"):
                notes.append(f"symbolic {f['spec']}: {f['label']} not reproduced on the real code: {f.get('info')}")
                unproved.append(f["spec"])
                soft_left.remove(f)
    # invariants are attached to loops by their order: they do not apply to a function which has other loops now
    for f in list(soft_left):
        m = specs.get(f["spec"], {})
        if m.get("inv"):
            sys.path.insert(0, HERE)
            from ngvc import shape

            other = shape.changed(REPO, list(m["funcs"]) + [k.split("#")[0] for k in symb.get(f["spec"], {}).get("loops", {})])
            if other:
                notes.append(f"symbolic {f['spec']}: {f['label']} not discharged, but the loops of {', '.join(other)} are not those the invariants were written for")
                unproved.append(f["spec"])
                restructured.append(f)
                soft_left.remove(f)
    if (soft_left or restructured) and not firm:
        names = sorted({f["spec"] for f in soft_left + restructured})
        r = worker("concrete", prop, {"seed": seed + 7, "seconds": 60, "mult": 200, "jobs": 6, "only": names}, os.path.join(tmp, "d.json"), tmp, timeout=200)
        for name, x in r.items():
            if isinstance(x, dict) and x.get("status") == "violation":
                v = x["violation"]
                firm.append({"spec": name, "label": v["label"], "values": v["values"], "seed": v["seed"], "info": v.get("info"), "how": "search guided by the failed obligation"})
    # ---- known findings
    code = 0
    kn = known()
    listed, lines = [], []
    for f in list(firm):
        for kp, ks, kl, what in kn:
            if kp == prop and ks == f["spec"] and kl == f["label"]:
                listed.append(f"KNOWN-FINDING: property={prop} {what}")
                firm.remove(f)
                soft_left = [x for x in soft_left if x["spec"] != ks]
                break
    nviol = 0
    if firm:
        for i, f in enumerate(firm[:5]):
            path = os.path.join(ev_dir, "replays", f"{prop}-{f['spec']}.json")
            json.dump(dict(f, property=prop, rerun=f"cd /verif && python3 check.py --replay {path}"), open(path, "w"), indent=1, default=str)
            lines.append(f"  {f['spec']}: {f['label']} {json.dumps(f.get('info'), default=str)[:300]} [{f['how']}]")
            lines.append(f"VIOLATION property={prop} replay={path}")
            nviol += 1
        code = 1
    elif soft_left:
        f = soft_left[0]
        path = os.path.join(ev_dir, "replays", f"{prop}-{f['spec']}-obligation.json")
        json.dump(dict(f, property=prop, failed_obligations=soft_left), open(path, "w"), indent=1, default=str)
        lines.append(f"  obligation not discharged: {f['spec']}: {f['label']} ({f['status']}) {f.get('info') or ''}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        nviol = len(soft_left)
        code = 1
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": f"python3 check.py {prop} (lowers /repo's current modules, generates the obligations, z3 {_z3v()} then cvc5)",
            "trusted_base": sorted(trusted) + BASE,
            "functions_under_contract": sorted(set(funcs)),
            "contracts": obl_list, "by_backend": backends, "solver_s": round(solver_s, 3),
            "loops": loops, "modules_lowered": lowered.get("modules", 0),
            "not_reestablished_on_this_tree": unproved, "bounded_standins": bounded,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "concrete executions of the contracts on the untouched code; distinct input valuations that satisfied every precondition",
            "samples": samples,
            "explanation": "obligations are proved for all inputs; bounded_standins and evaluations are executions within the stated bounds and are not counted as proved",
        },
        "assumptions": BASE + sorted(trusted), "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    json.dump(evidence, open(os.path.join(ev_dir, f"{prop}.json"), "w"), indent=1, default=str)
    for x in dict.fromkeys(map(str, notes)):
        print("NOTICE", str(x)[:1500])
    for x in listed:
        print(x)
    for x in lines:
        print(x)
    print(f"{prop}: obligations {ndis}/{nobl} discharged ({backends}), {len(set(funcs))} functions under contract, {evals} concrete executions, {time.time() - t0:.1f}s -> exit {code}")
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    return code


BASE = [
    "CPython semantics and the lowering in ngvc/rewrite.py (listed there; self-tested by running the repository's tests on the lowered code)",
    "z3 / cvc5; Python floats are treated as mathematical reals unless a contract says 'double'",
    "Python int arithmetic is exact (true of Python)",
]


def _z3v():
    try:
        d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        return next(x.split("-")[1].replace(".dist", "") for x in sorted(os.listdir(d)) if x.startswith("z3_solver-"))
    except Exception:
        return "?"


def replay():
    f = json.load(open(sys.argv[2]))
    tmp = tempfile.mkdtemp(prefix="ngvc_replay_")
    r = worker("replay", f["property"], {"items": [{"spec": f["spec"], "values": f["values"], "seed": f.get("seed", 0)}]}, os.path.join(tmp, "r.json"), tmp, timeout=300)
    print(json.dumps(r.get("0", r), indent=1))
    return 1 if r.get("0", {}).get("status") == "violation" else 0


if __name__ == "__main__":
    sys.exit(replay() if sys.argv[1] == "--replay" else main())
