"""Rewrites the generated section of DESIGN.md (bounds and assumptions of every check) from checks/*.py."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
MOD = {}
src = open(os.path.join(HERE, "run.py")).read()
for t in ast.walk(ast.parse(src)):
    if isinstance(t, ast.Dict):
        try:
            d = ast.literal_eval(t)
        except ValueError:
            continue
        if "C01" in d and isinstance(d["C01"], str):
            MOD = d
out = []
for pid in sorted(titles):
    f = MOD.get(pid, pid.lower())
    f = f if f.endswith(".py") else f + ".py"
    path = os.path.join(HERE, "checks", os.path.basename(f))
    vals = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS") if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("**%s %s** (`checks/%s`)\n" % (pid, titles[pid], os.path.basename(path)))
    out.append("* quick: %s" % vals["BOUNDS"]["quick"])
    out.append("* thorough: %s" % vals["BOUNDS"]["thorough"])
    out.append("* assumed: %s\n" % "; ".join(vals["ASSUMPTIONS"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bounds: generated by tools/design.py -->\n", "<!-- end of generated section -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + s[s.index(b):]
open(p, "w").write(s)
