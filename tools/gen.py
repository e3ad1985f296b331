"""writes ../properties.jsonl and ../MANIFEST.json from props.py"""
import json, os
from props import P
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    c = {"property": p["id"], "quick_cmd": f"./run {p['id']} quick", "thorough_cmd": f"./run {p['id']} thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": "model checking: " + p["technique"],
         "level": "model_checking", "level_note": p["note"]}
    if not p["thorough"]:
        del c["thorough_cmd"]
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: C++ harnesses are compiled from /repo's working tree with an -include shim for the random source and the clock; Python is imported from /repo/src. Exit code 2 = the machinery could not run."},
          open(f"{root}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for f, s in (("MANIFEST.json", "MANIFEST"),):
        jsonschema.validate(json.load(open(f"{root}/{f}")), json.load(open(f"/root/.vp/{s}.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(f"{root}/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    print("valid", len(checks), "checks", len(na), "n/a")
except ImportError:
    print("jsonschema not available")
