"""development aid: runs one contract symbolically and prints its undischarged obligations
usage: python tools/one.py PROP NAME"""
import os, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("NGVC_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
from ngvc import rewrite, runtime
vc = runtime.VC()
rewrite.install(vc, lambda m: ".test_" not in m)
import nevergrad
from ngvc import core, harness
orig = core.Ctx.prove
def prove(self, name, e, info=None):
    t = time.time()
    n = len(self.failures)
    r = orig(self, name, e, info)
    dt = time.time() - t
    if dt > 1 or not r:
        print(f"[{self.paths}] {name}: {dt:.1f}s {'ok' if r else self.failures[-1]['status']}", info or "", flush=True)
        if not r and "-v" in sys.argv:
            print("   goal", str(e)[:1500]); print("   pc", [str(x)[:300] for x in self.pc][-30:])
    return r
core.Ctx.prove = prove
harness.load_contracts(sys.argv[1])
for s in harness.SPECS:
    if s.prop == sys.argv[1] and s.name == sys.argv[2]:
        for a in sys.argv:
            if a.startswith("-t"): s.timeout_ms = int(a[2:])
        r = harness.run_symbolic(s)
        print({k: r[k] for k in ("status", "error", "paths", "wall_s", "solver_s", "covered", "trusted")})
        for o in r["obligations"]: print(o)
