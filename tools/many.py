"""python tools/many.py contracts.mod:func N [start]: runs a bounded contract on N seeds in-process (unlowered), prints distinct failures"""
import sys, importlib, traceback, warnings, collections
sys.path.insert(0, "/verif"); sys.path.insert(0, __import__("os").environ.get("NGVC_REPO", "/repo"))
warnings.simplefilter("ignore")
mod, fn = sys.argv[1].split(":")
f = getattr(importlib.import_module(mod), fn)
f = getattr(f, "fn", f)
import time, signal, os
from ngvc.harness import Concrete, ContractViolation, Discard
class Slow(BaseException): pass
def onalarm(*a): raise Slow()
signal.signal(signal.SIGALRM, onalarm)
fails = collections.Counter(); ex = {}
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
slow = []
for k in range(start, start + int(sys.argv[2])):
    t = time.time()
    s = Concrete(seed=k)
    signal.alarm(30)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(s)
    except Discard:
        pass
    except ContractViolation as e:
        info = getattr(e, "info", {}) or {}
        key = (getattr(e, "label", str(e)[:60]), info.get("name"), info.get("nobj"))
        fails[key] += 1; ex.setdefault(key, (k, info))
    except Slow:
        print("HANG", k, s.values, traceback.format_exc()[-700:])
    except Exception as e:
        key = (type(e).__name__, str(e)[:100], traceback.format_exc().splitlines()[-3][-120:])
        fails[key] += 1; ex.setdefault(key, (k, ""))
    signal.alarm(0)
    dt = time.time() - t
    if dt > 2: slow.append((k, round(dt, 1)))
for k, n in fails.most_common(): print(n, k, str(ex[k])[:400])
print("slow", slow[:10]); sys.stdout.flush()
os._exit(0)
