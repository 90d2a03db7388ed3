"""writes MANIFEST.json from properties.jsonl and the contracts"""
import json
import sys
sys.path.insert(0, "/verif")
from pyvc import verify
ld, lemmas = verify.load("/verif/contracts", "/repo")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
    "C22": "differential privacy is a statement about output distributions; the noise is drawn by an external package that is absent here, and contracts on "
           "single executions cannot state or decide it (the accounting that C22 rests on is decided as C04 and C05)",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    mine = [l for l in lemmas if i in l.props]
    if not mine:
        continue
    pr = [l for l in mine if l.symbolic]
    bd = [l for l in mine if not l.symbolic]
    lvl = "proof" if pr else "exploration"
    note = (f"{len(pr)} contracts/lemmas proved for all inputs on every run by pyvc (VC generation from /repo's source, z3): "
            + ", ".join(l.name for l in pr) + ". " if pr else "") + \
           (f"{len(bd)} contracts bounded (executed on generated inputs against the real code, not proved): " + ", ".join(l.name for l in bd) + ". " if bd else "") + \
           "Trusts pyvc's models of Python/NumPy, z3, and floats as reals (see DESIGN.md)."
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3-vt check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {i}",
                       technique="contract-based deductive verification (pyvc VC generator + z3)" + (" with labelled bounded contract execution" if bd else ""),
                       level=lvl, level_note=note))
done = {c["property"] for c in checks}
na = [dict(property=p["id"], reason=NA.get(p["id"], "no contract written yet")) for p in props if p["id"] not in done]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && /opt/venv39/bin/python -c 'import sys'", checks=checks, not_applicable=na),
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
