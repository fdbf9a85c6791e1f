"""python tools/conc.py PROP contract-name [seconds] [mult] [seed]: executions of one contract (development helper)"""
import json, sys, tempfile
sys.path.insert(0, "/verif")
import check
prop, name = sys.argv[1:3]
sec, mult, seed = [float(x) for x in (sys.argv[3:] + ["40", "1", "1"][len(sys.argv) - 3:])]
with tempfile.TemporaryDirectory() as tmp:
    r = check.worker("concrete", prop, {"seed": int(seed), "seconds": sec, "mult": mult, "jobs": 3, "only": [name]}, tmp + "/o.json", tmp)
    if "__failed__" in r:
        print(r)
    for k, v in r.items():
        if name in str(k) or True:
            print(k, json.dumps(v, default=str)[:3000])
