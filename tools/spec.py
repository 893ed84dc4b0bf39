#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after edits)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=(), observe=(), claim=True):
    assert len(title) <= 80, title
    PROPS.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe)},
    })
    if claim:
        CHECKS.append({
            "property": id,
            "quick_cmd": f"./check.sh {id} quick", "thorough_cmd": f"./check.sh {id} thorough",
            "evidence_file": f"evidence/{id}.json",
            "technique": technique, "level": level, "level_note": " ".join(note.split()),
        })

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": CHECKS, "not_applicable": NA,
               "notes": "One Rust harness (harness/) drives the real crate under generated workloads; every property has its own online monitor in harness/src/props. No hooks in /repo are needed. See DESIGN.md."}, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for p in PROPS: jsonschema.validate(p, ps)
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), ms)
    print("valid:", len(PROPS), "properties,", len(CHECKS), "checks")
except ImportError:
    print("jsonschema missing, not validated (use python3-vt)")
