#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from tools/design.in.md, properties.jsonl and the checks."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES  # noqa: E402
from mc import common  # noqa: E402
import design  # noqa: E402

common.load()
out = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module("props." + i.lower())
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Technique:* %s.  %s\n" % (NOTES[i][0], NOTES[i][1]))
    d = design.D[i]
    out.append("*Oracle:* %s\n" % d["oracle"])
    out.append("*Beyond the tests:* %s\n" % d["why"])
    out.append("*Families:*\n" + "\n".join("- %s: %s" % (f.name, f.about) for f in m.families()) + "\n")
    out.append("*Assumes:* %s.  *Quick cost:* about %s s.\n" % ("; ".join(m.ASSUMPTIONS), d["cost"]))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
res = json.load(open(os.path.join(V, "tools", "seed_results.json")))
for s in sorted(os.listdir(sd)):
    meta = json.load(open(os.path.join(sd, s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, meta["property"], meta["needs"].replace("|", "\\|"), res.get(s, "?")))
t = open(os.path.join(V, "tools", "design.in.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out).rstrip()).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
