#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the checks' own descriptions, tools/design_props.json and tools/design_tail.md."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
notes = json.load(open(V + "/tools/design_props.json"))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Per property", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    t = ast.parse(open(V + "/checks/%s.py" % i.lower()).read()); d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "PER"):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
        if isinstance(n, ast.FunctionDef) and n.name == "ncases": d["n"] = ast.unparse(n.body[0].value)
    out += ["### %s – %s" % (i, p["title"]), "", "*Technique.* " + man[i]["technique"] + ".", "", "*Executions and what is judged.* " + d.get("RULE", "") + ".", ""]
    out += ["*Amount.* cases: `%s`%s." % (d.get("n", ""), ("; iterations inside one case: `%s`" % json.dumps(d["PER"])) if "PER" in d else ""), ""]
    nt = notes.get(i, {})
    if nt.get("oracle"): out += ["*Oracle.* " + nt["oracle"], ""]
    if nt.get("reach"): out += ["*Why it reaches further than the tests.* " + nt["reach"], ""]
    lim = list(d.get("ASSUMPTIONS", [])) + nt.get("limits", [])
    if lim: out += ["*Bounds and assumptions.* " + "; ".join(lim) + ".", ""]
out += [open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
rows = ["| id | property | needs | breaks | caught by |", "|----|----|----|----|----|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], m.get("caught", m["property"])))
s = open(V + "/DESIGN.md").read().replace("SEEDTABLE", "\n".join(rows)); open(V + "/DESIGN.md", "w").write(s)
