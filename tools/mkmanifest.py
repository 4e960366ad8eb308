import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", technique=P["technique"], level=P["level"], level_note=P["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
m["notes"] = "No hooks: /repo is only changed by fix: commits (known-findings.json)."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
