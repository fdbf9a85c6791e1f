"""builds and verifies planted bugs: python tools/mkseed.py ID... (definitions in tools/seeds/*.py); scratch copy in /tmp/rc<k>"""
import glob, json, os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = (prop, edits, demo, needs, breaks)


def run(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main(ids):
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        exec(open(f).read(), {"seed": seed})
    if ids == ["all"]:
        ids = list(SEEDS)
    if ids == ["new"]:
        ids = [i for i in SEEDS if not os.path.exists(f"/verif/seeded/{i}/meta.json") and not os.path.exists(f"/tmp/seedfail/{i}")]
    rc = os.environ.get("RC", "/tmp/rc")
    test = open("/opt/vp/test.sh").read().replace("/repo", rc).replace("/opt/vp/report.xml", rc + ".xml")
    open(rc + ".sh", "w").write(test)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        prop, edits, demo, needs, breaks = SEEDS[i]
        shutil.rmtree(rc, ignore_errors=True)
        run(f"cp -a /repo {rc}", "/")
        ok = True
        for path, old, new in edits:
            t = open(f"{rc}/{path}").read()
            if t.count(old) != 1:
                print(i, "EDIT MATCHES", t.count(old), path)
                ok = False
                break
            open(f"{rc}/{path}", "w").write(t.replace(old, new))
        if not ok:
            continue
        d = f"/tmp/seedwork/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(run("git diff", rc).stdout)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = run(f"bash {d}/demo.sh", "/repo")
        b = run(f"bash {d}/demo.sh", rc)
        if a.returncode != 0 or b.returncode == 0:
            print(i, "DEMO", a.returncode, a.stderr[-600:], b.returncode, b.stderr[-300:], flush=True)
            continue
        t = run(f"bash {rc}.sh {rc}.json", rc)
        r = json.load(open(rc + ".json"))
        passed = set(r.get("passed", r if isinstance(r, list) else []))
        want = set(base.get("passed", base.get("stable", [])) if isinstance(base, dict) else base)
        missing = want - passed
        if missing:
            print(i, "TESTS FAIL", len(missing), sorted(missing)[:3], flush=True)
            os.makedirs(f"/tmp/seedfail/{i}", exist_ok=True)
            continue
        out = f"/verif/seeded/{i}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print(i, "OK", b.stderr.strip().splitlines()[-1:], flush=True)
    shutil.rmtree(rc, ignore_errors=True)


main(sys.argv[1:])
