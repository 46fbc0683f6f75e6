"""Regenerates properties.jsonl and MANIFEST.json from tools/propdata.py (authoring aid, not part of a check)."""
import json, os, sys
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools')
sys.dont_write_bytecode = True
import propdata
from sbv import props, registry

root = '/verif'
checks, na, lines = [], [], []
for p in propdata.P:
    pid = p["id"]
    if pid not in props.REG and not p.get("na"):
        print("not ready:", pid)
        continue
    assert len(p["title"]) <= 80, pid
    lines.append(json.dumps({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["q"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}))
    if p.get("na"):
        na.append({"property": pid, "reason": p["na"]})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt /verif/check.py --property %s --tier quick" % pid,
        "thorough_cmd": "python3-vt /verif/check.py --property %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": p.get("tech", propdata.TECH_EQ),
        "level": "other",
        "level_note": p.get("note", propdata.NOTE_EQ),
    })
open(root + '/properties.jsonl', 'w').write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3-vt /verif/check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": propdata.NOTES}, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write("\n")
print(len(checks), "checks", len(na), "not applicable")
