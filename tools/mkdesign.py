#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.in.md, properties.jsonl, engine/registry.py, not_applicable.json and seeded/"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import registry
HOW = json.load(open(os.path.join(V, "tools", "how.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
out = ["## Properties decided\n"]
for p in props:
    if p["id"] in registry.PROPS:
        out.append("* **%s %s** — %s" % (p["id"], p["title"], HOW[p["id"]]))
out.append("\n## Properties not decided (not_applicable in the manifest)\n")
for p in props:
    if p["id"] not in registry.PROPS:
        out.append("* **%s %s** — %s" % (p["id"], p["title"], na[p["id"]]))
out.append("")
seeds = ["| bug | property (its check reports it) | what it breaks | needs |", "|---|---|---|---|"]
S = os.path.join(V, "seeded")
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (i, m["property"] + m.get("missed", ""), m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
t = open(os.path.join(V, "tools", "design.in.md")).read().replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
