#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules present in rules/ and the reasons in tools/not_applicable.json."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
na = json.load(open(H + "/tools/not_applicable.json"))
checks = []
for i in ids:
    if not os.path.exists("%s/rules/%s.py" % (H, i.lower())):
        continue
    m = importlib.import_module("rules." + i.lower())
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": "other", "level_note": m.LEVEL_NOTE})
have = {c["property"] for c in checks}
nal = [{"property": i, "reason": na.get(i, "no check of this property has been built yet")} for i in ids if i not in have]
json.dump({"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": nal,
           "notes": "Static analysis of /repo's LLVM IR; see DESIGN.md. No hooks in /repo."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(nal), "not applicable")
