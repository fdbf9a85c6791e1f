"""writes properties.jsonl and MANIFEST.json from props_text.py and the contracts (PYTHONPATH=/verif:/repo)"""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, "/repo", os.path.join(H, "tools")]
import props_text as T
from ngvc import harness

specs = harness.load_contracts()
from ngvc import shape
shape.write("/repo", [f for s in specs for f in s.funcs])
claimed, lines = [], []


def path(mod):
    return mod.replace(".", "/") + ".py"


for i, t in list(T.P.items()):
    mine = [s for s in specs if s.prop == i or i in s.also]
    if not mine and "--all" not in sys.argv:
        continue
    fs = []
    for s in mine:
        fs += [f for f in s.funcs if f not in fs]
    files = sorted({path(f.split(":")[0]) for f in fs})
    for f in files:
        assert os.path.exists("/repo/" + f) or os.path.exists("/repo/" + f.replace(".py", "/__init__.py")), f
    lines.append({"id": i, "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["text"]},
                  "why_tests_cant": t["why"],
                  "anchors": {"files": files, "mechanism": [{"name": f.split(":")[1], "where": path(f.split(":")[0])} for f in fs]}})
    np = sum(s.mode == "proof" for s in mine)
    nb = sum(s.mode == "bounded" for s in mine)
    claimed.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                    "technique": "contract-based deductive verification of the mechanically lowered source (VCs discharged by z3/cvc5), counterexamples replayed on the real code",
                    "level": "proof" if np else "exploration",
                    "level_note": f"{np} contracts over {len(fs)} functions of /repo discharged for all inputs on every run; {nb} harnesses of the public API are bounded (bounds in the evidence) and not counted as proved. Floats are mathematical reals unless the contract says doubles."})
for i, (title, st, over, text, why) in T.EXTRA_NA.items():
    f = {"C26": ["nevergrad/optimization/base.py"], "C27": ["nevergrad/optimization/base.py"], "C28": ["nevergrad/optimization/recaster.py"]}[i]
    lines.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                  "anchors": {"files": f, "mechanism": [{"name": "see DESIGN.md", "where": f[0]}]}})
with open(os.path.join(H, "properties.jsonl"), "w") as g:
    for x in lines:
        assert len(x["title"]) <= 80, x["title"]
        g.write(json.dumps(x) + "\n")
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); import ngvc, z3'", "checks": claimed,
       "not_applicable": [{"property": k, "reason": v} for k, v in T.NOT_APPLICABLE.items()]}
with open(os.path.join(H, "MANIFEST.json"), "w") as g:
    json.dump(man, g, indent=1)
print(len(claimed), "claimed;", len(lines), "properties")
