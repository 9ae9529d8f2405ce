#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/checks.txt (property group) and the notes below."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
group = dict(l.split()[:2] for l in open(os.path.join(here, "harness/checks.txt")) if l.strip() and not l.startswith("#"))
exec(open(os.path.join(here, "tools/notes.py")).read())   # TECH, NOTE, LEVEL, NOTAPP
checks, na = [], []
for p in props:
    i = p["id"]
    if i in group:
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           technique=TECH[i], level=LEVEL.get(i, "exploration"), level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NOTAPP.get(i, "not built yet")))
m = dict(version=1, setup_cmd="make -s -j8 build/gen/Version.hh build/h/engine.o", checks=checks, not_applicable=na,
         notes="Every check builds what it needs from /repo's working tree (./check PROPERTY); VERIF_SEED and VERIF_TIER are honoured; ./check --replay FILE replays a recorded failure. No hooks in /repo are needed: the sources are compiled unmodified against the stand-in headers in shim/.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
