#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list of properties below."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, technique=None, note=None,
         na=None, observe=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, na))


exec(open(VERIF + "/tools/properties.py").read())

built = set()
for f in os.listdir(VERIF + "/harness"):
    built |= set(re.findall(r'PPV_(?:PROP|REGRESS)\("(C\d+)"', open(VERIF + "/harness/" + f).read()))

with open(VERIF + "/properties.jsonl", "w") as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

manifest = {"version": 1, "setup_cmd": "./build.py", "checks": [], "not_applicable": [],
            "notes": "All checks are property-based tests of one engine (harness/pbt.cpp) that "
                     "rebuild from /repo's working tree with AddressSanitizer and "
                     "UndefinedBehaviorSanitizer. 'replay FILE' reruns a saved counterexample. No "
                     "hooks are needed in /repo. Known findings: KNOWN_FINDINGS.txt."}
for d, technique, note, na in P:
    if na or d["id"] not in built:
        manifest["not_applicable"].append({"property": d["id"],
                                           "reason": na or "The check is still being built."})
        continue
    manifest["checks"].append({
        "property": d["id"],
        "quick_cmd": "./check %s --tier quick" % d["id"],
        "thorough_cmd": "./check %s --tier thorough" % d["id"],
        "evidence_file": "evidence/%s.json" % d["id"],
        "technique": technique, "level": "exploration", "level_note": note})
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(manifest["checks"]), "checks,", len(manifest["not_applicable"]), "not claimed")
