"""Writes /verif/MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; behaviours and expected values exported by TLC replayed on the real code"
CLAIMS = {
 "W01": (T, "Exhaustive for all ordered pairs of wire sets on one mode (six kinds of legs) and for ket-only wires on two modes; random pairs and triples on three modes. The laws are invariants of Wires.tla; every emitted pair, view and triple is compared with the real Wires (result, permutation, labels, errors, hash, views). Trusts TLC and the small replay driver."),
}
if os.path.exists(os.path.join(V, "harness", "claims.json")):
    for k, v in json.load(open(os.path.join(V, "harness", "claims.json"))).items():
        CLAIMS[k] = (v.get("technique", T), v["note"])
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./check --setup",
         checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                      technique=CLAIMS[p["id"]][0], level="model_checking", level_note=CLAIMS[p["id"]][1])
                 for p in props if p["id"] in CLAIMS],
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in CLAIMS],
         notes="Specifications in specs/*.tla (TLA+, TLC); replay drivers in harness/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
