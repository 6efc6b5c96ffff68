#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the docstrings of the checks and the notes below."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {}
exec(open(f"{H}/tools/na.py").read())
exec(open(f"{H}/tools/design_notes.py").read())
seeds = {}
for f in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
out = [open(f"{H}/tools/design_head.md").read(), "\n# Properties decided\n"]
na = []
for p in props:
    i = p["id"]
    f = f"{H}/sa/checks/{i.lower()}.py"
    if not os.path.exists(f):
        na.append(p)
        continue
    m = ast.parse(open(f).read())
    g = {t.id: n.value for n in m.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    out.append(f"\n## {i} — {p['title']}\n")
    out.append(f"*Statement.* {p['statement']}\n")
    out.append("*How it is decided.* " + " ".join(ast.get_docstring(m).split()) + "\n")
    out.append("*Technique.* " + ast.literal_eval(g["TECHNIQUE"]) + ".\n")
    out.append("*Trusted.* " + ast.literal_eval(g["NOTE"]) + "\n")
    for x in NOTES.get(i, []):
        out.append("- " + x)
    for s, w in seeds.get(i, []):
        c = CAUGHT.get(s, "caught by this property's check")
        out.append(f"- planted `{s}`: {w} ({c})")
out.append("\n# Not applicable\n")
for p in na:
    out.append(f"- **{p['id']} {p['title']}** — " + NA.get(p["id"], "no sound static argument has been built for this property yet; nothing is claimed") + ".")
open(f"{H}/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "paragraphs")
