#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text of tools/design.txt plus one section per property and the table of planted bugs."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp import checks
head, tail = open(os.path.join(HERE, "tools", "design.txt")).read().split("@@PROPERTIES@@\n")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
seeds = {}
sd = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
notes = {}
for block in open(os.path.join(HERE, "tools", "design-notes.txt")).read().split("\n## "):
    k, _, v = block.strip().lstrip("# ").partition("\n")
    notes[k.strip()] = v.strip()
o = []
for p in props:
    i = p["id"]
    level, rule, meaning, assumptions, fn = checks.SPECS[i]
    o.append("### %s %s\n" % (i, p["title"]))
    o.append("*Decided by:* %s.  \n*Explored:* %s  \n*Why beyond the tests:* %s  " % (man[i]["technique"], rule, p["why_tests_cant"]))
    if assumptions:
        o.append("*Assumes:* %s.  " % "; ".join(assumptions))
    if i in notes:
        o.append(notes[i])
    o.append("")
t = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
known = json.load(open(os.path.join(HERE, "tools", "seed-results.json")))
for i in sorted(seeds):
    for d, m in seeds[i]:
        t.append("| %s | %s | %s | %s |" % (d, i, m["needs"].replace("|", "/"), known.get(d, "not run")))
open(os.path.join(HERE, "DESIGN.md"), "w").write(head + "\n".join(o) + "\n" + tail.replace("@@SEEDS@@", "\n".join(t)))
print("DESIGN.md:", len(props), "properties,", sum(map(len, seeds.values())), "planted bugs")
