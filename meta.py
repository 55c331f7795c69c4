#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, claim=True, reason=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claim=claim, reason=reason, technique=technique))


exec(open(os.path.join(HERE, "properties_src.py")).read())

LEVEL = {"C22": "translation_validation", "C25": "translation_validation"}
TECH = "contract-based deductive verification of the real Python source (pyvc: symbolic execution against pre/postconditions and inferred loop invariants, z3), with replay of the same contracts on the running code"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/meta.py",
       "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"] or TECH, "level": LEVEL.get(p["id"], "proof"), "level_note": p["note"]} for p in P if p["claim"]],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
