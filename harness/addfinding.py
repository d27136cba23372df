"""addfinding.py ID PROPERTY COMMIT TEXT : records a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
i, pr, c, t = sys.argv[1:5]
k = [x for x in k if x["id"] != i] + [dict(id=i, property=pr, status="fixed", commit=c, keys=[], what=f"fixed: property={pr} {c} {t}")]
json.dump(k, open(p, "w"), indent=1)
