#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the rules and their properties, and design_tail.md"""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
na = json.load(open(os.path.join(here, "not_applicable.json")))
cost = dict(l.split() for l in open(os.path.join(here, "cost.txt")) if l.strip()) if os.path.exists(os.path.join(here, "cost.txt")) else {}
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## Properties", ""]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    out += ["### %s %s" % (pid, p["title"]), ""]
    f = os.path.join(root, "rules", pid.lower() + ".py")
    if not os.path.exists(f):
        out += ["Not applicable: %s." % na.get(pid, "no check built"), ""]
        continue
    t = ast.parse(open(f).read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "LEVEL_NOTE")}
    doc = ast.get_docstring(t).split(":", 1)[1].strip().replace("\n", " ")
    out += ["* Method: %s." % c["TECHNIQUE"].rstrip("."), "* What is decided: %s" % doc, "* Bounds and trust: %s" % c["LEVEL_NOTE"],
            "* Beyond the tests: it has to hold for %s. %s" % (p["quantifier"]["text"], p["why_tests_cant"])]
    if pid in cost:
        out += ["* Cost: about %s s." % cost[pid]]
    out += [""]
out += [open(os.path.join(here, "design_tail.md")).read().rstrip()]
catch = dict(l.split(None, 1) for l in open(os.path.join(here, "catches.txt")) if l.strip()) if os.path.exists(os.path.join(here, "catches.txt")) else {}
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    out += ["| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), catch.get(d, "?").strip())]
out += [""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
