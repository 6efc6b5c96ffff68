#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {}
exec(open(f"{H}/tools/na.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{H}/sa/checks/{i.lower()}.py"
    if os.path.exists(f):
        m = ast.parse(open(f).read())
        g = {t.id: n.value for n in m.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        tech = ast.literal_eval(g["TECHNIQUE"])
        note = ast.literal_eval(g["NOTE"])
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no sound static argument has been built for this property yet; nothing is claimed")))
json.dump(dict(version=1, setup_cmd="python3 -c 'from sa.facts import build; build()'", checks=checks, not_applicable=na), open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
