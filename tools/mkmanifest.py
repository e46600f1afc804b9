"""writes MANIFEST.json; the checks listed are those whose contracts/<id>.py and battery/<id>.py exist"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = "pyvc interprets the functions' AST read from /repo at every run, callers against callee contracts, loops against invariants; z3/cvc5 discharge every obligation; failing inputs are searched by running the real code against independent oracles"
sys.path.insert(0, os.path.join(H, "tools"))
from notes import NOTES, NA
checks, na = [], []
for i in ids:
    if i in NA or not os.path.exists("%s/contracts/%s.py" % (H, i.lower())):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    cmd = "python3-vt /verif/check.py %s " % i
    checks.append(dict(property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file="evidence/%s.json" % i, technique="contract-based deductive verification of the real Python code (pyvc: contracts + loop invariants, WP-style symbolic interpretation, z3/cvc5)", level="proof", level_note=NOTES.get(i, "") or NOTE))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="see DESIGN.md; " + NOTE)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
