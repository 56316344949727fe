#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the modules in props/ and the notes below."""
import json, os, sys
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(TOP, "tools", "notes.json")))
checks, missing = [], []
for line in open(os.path.join(TOP, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(TOP, "props", p.lower() + ".py")) and p in NOTES:
        technique, note = NOTES[p][:2]
        level = NOTES[p][2] if len(NOTES[p]) > 2 else "exploration"
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": technique, "level": level,
                       "level_note": note})
    else:
        missing.append({"property": p, "reason": "the check for this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": missing,
           "notes": "Every check builds the library from /repo's working tree in a scratch directory and needs no hooks. "
                    "Known findings and repaired defects: KNOWN_FINDINGS.txt. Replay a violation with "
                    "`python3 check.py <id> --replay <file>`."},
          open(os.path.join(TOP, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
