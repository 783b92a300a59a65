#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from tools/design.md.in, props.py, evidence and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, V)
import props
rows = []
for p in sorted(props.P, key=lambda p: p["id"]):
    f = os.path.join(V, "mc/checks/%s.py" % p["id"].lower())
    src = open(f).read()
    ns = {}
    import ast
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ("RULE", "ORACLE"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    e = os.path.join(V, "evidence/%s.json" % p["id"])
    t = ""
    if os.path.exists(e):
        d = json.load(open(e))
        t = "%.0f s" % d["wall_s"] if d.get("tier", "quick") == "quick" and "wall_s" in d else ""
    rows.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], getattr(props, "ORACLE", {}).get(p["id"], "definition, in NumPy"), ns["RULE"].replace("|", "/"), t))
seeds = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    seeds.append("* `%s` (%s): %s - needs %s." % (i, m["property"], m["what_it_breaks"], m["needs"]))
s = open(os.path.join(V, "tools/design.md.in")).read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@NOT@@", "\n".join("* " + x for x in props.NOT_COVERED))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
