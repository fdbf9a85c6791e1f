"""python tools/runseeds.py [ID...]: runs the check of each planted bug on a scratch copy with the patch; writes tools/caught.json"""
import glob, json, os, re, shutil, subprocess, sys
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob("/verif/seeded/*/meta.json"))
out = "/verif/tools/caught.json"
res = json.load(open(out)) if os.path.exists(out) else {}
rc = "/tmp/rcs"
for i in ids:
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    shutil.rmtree(rc, ignore_errors=True)
    subprocess.run(f"cp -a /repo {rc} && git -C {rc} apply /verif/seeded/{i}/patch.diff", shell=True, check=True)
    p = subprocess.run(["/opt/venv/bin/python", "check.py", m["property"]], cwd="/verif", env=dict(os.environ, NGVC_REPO=rc), capture_output=True, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    how = []
    for l in v:
        f = re.search(r"replay=(\S+)", l).group(1)
        try:
            d = json.load(open(f))
            how.append(f"{d.get('spec')}/{d.get('label') or d.get('obligation') or ''}" + (" (no failing input)" if "no-failing" in l else ""))
        except Exception:
            how.append(l)
    res[i] = {"property": m["property"], "exit": p.returncode, "caught": p.returncode == 1, "how": how}
    print(i, m["property"], p.returncode, how[:3], [l for l in p.stdout.splitlines() if "NOTICE" in l][:2], flush=True)
    json.dump(res, open(out, "w"), indent=1, sort_keys=True)
shutil.rmtree(rc, ignore_errors=True)
