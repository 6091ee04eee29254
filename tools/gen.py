"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props as m  # noqa: E402

root = os.path.dirname(here)
ps = sorted(m.PROPS, key=lambda p: p["id"])
assert len({p["id"] for p in ps}) == len(ps)
for p in ps:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in ps:
        f.write(json.dumps(p) + "\n")
checks = []
na = []
for p in ps:
    i = p["id"]
    if i in m.NOT_CLAIMED:
        na.append({"property": i, "reason": m.NOT_CLAIMED[i]})
        continue
    if not os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        print("no check for", i)
        na.append({"property": i, "reason": "check not built yet"})
        continue
    tech, note = m.TECH[i]
    checks.append({
        "property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note,
    })
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "Every check drives the code in /repo/src directly; no hooks in /repo."}, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for p in ps:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(ps), "properties,", len(checks), "checks")
except ImportError:
    print("jsonschema not available")
