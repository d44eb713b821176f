#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property list, the check modules' docstrings and seeded/*/meta.json."""
import ast, glob, json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(D + "/tools/design_head.md").read()
man = json.load(open(D + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = ["## Properties and how each is decided\n"]
for l in open(D + "/properties.jsonl"):
    p = json.loads(l)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Property: %s Quantified %s.\n" % (p["statement"], p["quantifier"]["text"]))
    f = D + "/checks/%s.py" % p["id"].lower()
    if p["id"] in na:
        out.append("Not claimed: %s\n" % na[p["id"]])
        continue
    m = ast.parse(open(f).read())
    out.append("Check (`checks/%s.py`): %s\n" % (p["id"].lower(), " ".join(ast.get_docstring(m).split())))
    for n in m.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            for k in getattr(n.value, "keywords", []):
                if k.arg == "assumptions":
                    try:
                        out.append("Assumptions: " + "; ".join(ast.literal_eval(k.value)) + ".\n")
                    except ValueError:
                        pass
    fns = [(n.name, ast.get_docstring(n)) for n in m.body if isinstance(n, ast.FunctionDef) and n.name.startswith("h_")]
    for nm, d in fns:
        if d:
            out.append("* `%s`: %s" % (nm, " ".join(d.split())))
    out.append("")
    out.append("Why tests cannot: %s\n" % p["why_tests_cant"])
det = {}
if os.path.exists(D + "/tools/detection.json"):
    det = json.load(open(D + "/tools/detection.json"))
t = ["| bug | property | what it breaks | needs | caught by its check |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(D + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    t.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], det.get(i, "?")))
open(D + "/DESIGN.md", "w").write(head.replace("@@PROPS@@", "\n".join(out)).replace("@@BUGS@@", "\n".join(t)))
