#!/usr/bin/env python3
"""Writes DESIGN.md from its parts and the planted bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
props = [json.loads(l) for l in open(top + "/properties.jsonl")]
text = json.load(open(here + "/design_props.json"))
misses = json.load(open(here + "/misses.json"))
out = [open(here + "/design_head.md").read()]
for p in props:
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], text[p["id"]]))
rows = ["| Bug | Check | Needs | First |", "|---|---|---|---|"]
for b in sorted(os.listdir(top + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, b)))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), misses.get(b, "caught").replace("|", "\\|")))
out.append(open(here + "/design_tail.md").read().replace("@TABLE@", "\n".join(rows)))
open(top + "/DESIGN.md", "w").write("\n".join(out))
