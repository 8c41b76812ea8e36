"""Writes MANIFEST.json: python tools/mkmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real Python functions (own VC generator over their syntax trees, z3/cvc5)"
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES[i]
    if n["level"] is None:
        na.append({"property": i, "reason": n["note"]})
        continue
    checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH + n.get("technique", ""), "level": n["level"], "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check discharges every obligation its contracts generate from the current source of /repo; bounded native checks run alongside "
              "(labelled bounded, never counted as proved). No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
