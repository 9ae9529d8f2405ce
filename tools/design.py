#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (between the two markers) from properties.jsonl, notes.py and the harnesses."""
import json, os, re, glob
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
group = dict(l.split()[:2] for l in open(os.path.join(here, "harness/checks.txt")) if l.strip() and not l.startswith("#"))
exec(open(os.path.join(here, "tools/notes.py")).read())
subs, rules = {}, {}
for f in sorted(glob.glob(os.path.join(here, "harness/*.cc"))):
    text = open(f).read()
    for p, n, q, th, fl in re.findall(r"^\s*VF_PROP\((\w+), *(\w+), *(\d+), *(\d+), *([^)]*)\)", text, re.M): subs.setdefault(p, []).append((n, q, th, "kConcurrent" in fl))
    for p, r in re.findall(r'^VF_RULE\((\w+), *"((?:[^"\\]|\\.)*)"\)', text, re.M): rules[p] = r.replace('\\"', '"')
out = []
for p in props:
    i = p["id"]; out.append(f"### {i}: {p['title']}\n")
    out.append(p["statement"] + "\n")
    if i not in group: out.append("Not claimed: " + NOTAPP.get(i, "") + "\n"); continue
    out.append(f"* **For all:** {p['quantifier']['text']}")
    out.append(f"* **Why tests cannot settle it:** {p['why_tests_cant']}")
    out.append(f"* **Decided by:** {TECH[i]}. {rules.get(i, '')}")
    out.append("* **Generated cases (quick / thorough):** " + "; ".join(f"`{n}` {int(q):,} / {int(t):,}{' (concurrent)' if c else ''}" for n, q, t, c in subs.get(i, [])))
    out.append(f"* **Bounds and assumptions:** {NOTE[i]}")
    out.append(f"* **Anchors:** {', '.join('`' + x + '`' for x in p['anchors']['files'])}\n")
f = os.path.join(here, "DESIGN.md"); s = open(f).read()
rows = ["| planted bug | caught by | what it needs to show |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json"))); rows.append(f"| {d} | {m['property']} | {m['needs']} |")
a, b = "<!-- seeds: written by tools/design.py -->", "<!-- end of seeds -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(rows) + "\n\n" + s[s.index(b):]
a, b = "<!-- properties: written by tools/design.py -->", "<!-- end of properties -->"
open(f, "w").write(s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):])
