"""regenerates the list of contracts at the end of DESIGN.md from contracts/ and evidence/"""
import json, os, sys, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.environ.get("NGVC_REPO", "/repo"))
warnings.simplefilter("ignore")
from ngvc import harness
import pathlib
for f in sorted(pathlib.Path(V, "contracts").glob("c[0-9]*.py")):
    __import__("contracts." + f.stem)
ev = {}
for f in sorted(pathlib.Path(V, "evidence").glob("C*.json")):
    ev[f.stem] = json.loads(f.read_text())["coverage"]
out = []
for prop in sorted({s.prop for s in harness.SPECS}):
    e = ev.get(prop, {})
    out.append(f"\n### {prop}: {e.get('obligations', '?')} obligations, {len(e.get('functions_under_contract', []))} functions with discharged contracts\n")
    out.append("| contract | kind | functions of /repo | what it says |\n|---|---|---|---|")
    for s in harness.SPECS:
        if s.prop != prop:
            continue
        doc = " ".join((s.fn.__doc__ or "").split()).replace("|", "/")
        kind = {"proof": "proved", "partial": "bounded (symbolic values)", "bounded": "bounded (executions)"}[s.mode]
        kind += f": {s.bound}" if s.bound and s.mode != "proof" else ""
        funcs = ", ".join(f.split(":")[-1] for f in s.funcs)
        out.append(f"| {s.name} | {kind} | {funcs} | {doc} |")
p = pathlib.Path(V, "DESIGN.md")
t = p.read_text()
mark = "<!-- contracts -->"
t = t.split(mark)[0] + mark + "\n" + "\n".join(out) + "\n"
caught = pathlib.Path(V, "tools", "caught.json")
if caught.exists():
    rows = ["| planted change | property | caught by (first obligations) |", "|---|---|---|"]
    for k, v in sorted(json.loads(caught.read_text()).items()):
        how = ", ".join(dict.fromkeys(h.replace(" (no failing input)", " (proof only)") for h in v["how"]))[:130]
        rows.append(f"| {k} | {v['property']} | {how if v['caught'] else 'not caught'} |")
    a, b = t.split("<!-- seeds -->")
    t = a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->" + b.split("<!-- /seeds -->", 1)[1]
p.write_text(t)
print(len(harness.SPECS), "contracts")
