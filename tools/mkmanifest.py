#!/usr/bin/env python3
"""writes MANIFEST.json from engine/registry.py and tools/not_applicable.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
for p in props:
    if p not in registry.PROPS:
        continue
    i = registry.PROPS[p]
    cmd = "python3 engine/check.py " + p
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, technique=i["technique"], level=i["level"], level_note=i["note"]))
m = dict(version=1, setup_cmd="python3 engine/build.py --prebuild", checks=checks,
         not_applicable=[dict(property=p, reason=na[p]) for p in props if p not in registry.PROPS],
         notes="Static analysis only: no code of /repo is executed. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
