"""child process: runs the contracts of one property, either symbolically on the lowered code or concretely on the
untouched code.  usage: python -m ngvc.worker symbolic|concrete|replay PROP OUT.json [options-json]"""
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
import typing as tp
import warnings

REPO = os.environ.get("NGVC_REPO", "/repo")


def _mem() -> None:
    lim = 6 * 1024**3
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def _child(fn: tp.Any, args: tp.Any, conn: tp.Any) -> None:
    try:
        _mem()
        r = fn(*args)
    except BaseException as e:  # reported, never swallowed
        r = {"status": "error", "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-2000:]}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({"status": "error", "error": f"unsendable result {e}"})
    conn.close()
    os._exit(0)


def run_pool(tasks: tp.List[tp.Tuple[str, tp.Any, tp.Any, float]], jobs: int) -> tp.Dict[str, tp.Any]:
    """tasks: (key, fn, args, timeout)"""
    ctx = mp.get_context("fork")
    pending = list(tasks)
    running: tp.List[tp.Any] = []
    out: tp.Dict[str, tp.Any] = {}
    while pending or running:
        while pending and len(running) < jobs:
            key, fn, args, to = pending.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=(fn, args, b))
            pr.start()
            b.close()
            running.append((key, pr, a, time.time() + to))
        time.sleep(0.01)
        for t in list(running):
            key, pr, a, dl = t
            if a.poll():
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = {"status": "error", "error": "child died"}
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                running.remove(t)
            elif not pr.is_alive():
                out[key] = {"status": "error", "error": f"child exited {pr.exitcode}"}
                running.remove(t)
            elif time.time() > dl:
                pr.kill()
                pr.join()
                out[key] = {"status": "timeout", "error": "timeout"}
                running.remove(t)
    return out


def search(spec: tp.Any, seed: int, seconds: float, trials: int) -> tp.Dict[str, tp.Any]:
    from ngvc import harness

    t0 = time.time()
    n = disc = 0
    distinct: tp.Set[int] = set()
    samples: tp.List[tp.Any] = []
    proved: tp.Dict[str, int] = {}
    k = 0
    errors: tp.List[str] = []
    while n < trials and time.time() - t0 < seconds and disc < 50 * trials + 500:
        k += 1
        try:
            r = harness.run_concrete(spec, None, seed * 1000003 + k)
        except Exception as e:
            errors.append(f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
            if len(errors) > 5:
                break
            continue
        if r["status"] == "discard":
            disc += 1
            continue
        n += 1
        js = json.dumps(r["values"], sort_keys=True, default=str)
        distinct.add(hash(js))
        if r["status"] == "violation":
            r["seed"] = seed * 1000003 + k
            return {"status": "violation", "spec": spec.name, "violation": r, "n": n, "distinct": len(distinct), "wall_s": time.time() - t0}
        if len(samples) < 2:
            samples.append(json.loads(js))
        for lb, c in r["proved"].items():
            proved[lb] = proved.get(lb, 0) + c
    st = "ok" if not errors else "harness-error"
    return {"status": st, "spec": spec.name, "n": n, "distinct": len(distinct), "discarded": disc, "samples": samples,
            "proved": proved, "errors": errors[:2], "wall_s": time.time() - t0}


def main() -> None:
    mode, prop, out = sys.argv[1:4]
    opts = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    t0 = time.time()
    res: tp.Dict[str, tp.Any] = {}
    if mode == "symbolic":
        from ngvc import rewrite, runtime

        vc = runtime.VC()
        finder = rewrite.install(vc, lambda m: ".test_" not in m)
    import nevergrad  # noqa
    from ngvc import harness

    assert os.path.realpath(nevergrad.__file__).startswith(os.path.realpath(REPO)), nevergrad.__file__
    specs = harness.load_contracts(prop)
    if os.environ.get("VERIF_TIER", "quick") != "thorough":
        specs = [s for s in specs if not s.deep]
    only = opts.get("only")
    if only:
        specs = [s for s in specs if s.name in only]
    jobs = int(opts.get("jobs", 4))
    if mode == "symbolic":
        tasks = [(s.name, harness.run_symbolic, (s,), float(opts.get("timeout", 240))) for s in specs if s.mode != "bounded"]
        res = run_pool(tasks, jobs)
        res["__lowered__"] = {"modules": len(finder.lowered)}
    elif mode == "concrete":
        seed = int(opts.get("seed", 1))
        seconds = float(opts.get("seconds", 20))
        mult = float(opts.get("mult", 1))
        tasks = []
        for s in specs:
            sec = seconds if s.conc_s is None else s.conc_s * mult
            tasks.append((s.name, search, (s, seed, sec, int(s.trials * mult)), sec + 120))
        res = run_pool(tasks, jobs)
    elif mode == "replay":
        for i, item in enumerate(opts["items"]):
            s = [x for x in specs if x.name == item["spec"]][0]
            try:
                res[str(i)] = harness.run_concrete(s, item["values"], int(item.get("seed", 0)))
            except Exception as e:
                res[str(i)] = {"status": "error", "error": f"{type(e).__name__}: {e}"}
    res["__meta__"] = {"wall_s": time.time() - t0, "specs": {s.name: {"funcs": s.funcs, "mode": s.mode, "bound": s.bound, "note": s.note, "inv": s.invariants is not None} for s in specs}}
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    os._exit(0)


if __name__ == "__main__":
    main()
