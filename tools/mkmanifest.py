#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "notes.py")).read())
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="verif", enable="no hooks are compiled into /repo; C27 and C29 instrument a build-time copy through go build -overlay", source_commits=[]),
    checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NOTES:
        tech, note = NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i} thorough",
            technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
