"""developer tool: verify some contracts, verbosely. usage: run1.py C01 [-q] [names...]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc import spec  # noqa: E402

prop = sys.argv[1].upper()
importlib.import_module("contracts." + prop.lower())
names = [a for a in sys.argv[2:] if not a.startswith("-")]
for c in spec.REGISTRY[prop]:
    if names and c.name not in names:
        continue
    r = spec.run_contract(c, verbose="-v" in sys.argv)
    bad = [k for k, v in r["covers"] if not v]
    print("==", c.name, r["paths"], "paths", len(r["obligations"]), "obl", len(r["failures"]), "failures", r["wall_s"],
          "s", sum(1 for o in r["obligations"] if o["t"] > 3), "slow", "UNREACHED " + str(bad) if bad else "", "funcs", len(r["functions"]))
    if "-a" in sys.argv:
        print("   assumed", r["assumed"], r["dropped"])
    seen = {}
    for f in r["failures"]:
        seen[f["name"]] = seen.get(f["name"], 0) + 1
        if seen[f["name"]] > 1 or len(seen) > 12:
            continue
        print("   FAIL", f["name"], f["kind"], str(f["detail"])[:1500], str(f["model"])[:400])
    if any(v > 1 for v in seen.values()):
        print("   counts", dict(list(seen.items())[:15]))
    if "-f" in sys.argv:
        print("   ", list(r["functions"]))
