"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    mods = ", ".join(dict.fromkeys(m["module"] for m in c.get("mc", [])))
    checks.append(dict(
        property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick",
        thorough_cmd=f"python3 run.py {p['id']} thorough",
        technique=f"TLA+ specification checked with TLC ({mods}) and bound to the code by trace validation "
                  f"({c.get('trace', 'Trace_' + p['id'])}) of recorded executions, driven by the scenarios TLC enumerates",
        level="model_checking", level_note=c.get("note", "bounded: the lattice TLC enumerates, the replayed scenarios and seeded random inputs in float64 and float32")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
