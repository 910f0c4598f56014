#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(top + "/tools/missed.txt").read().split())
rows = []
for f in glob.glob(top + "/seeded/*/meta.json"):
    name = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append((m["property"], name, m["needs"]))
rows.sort()
text = open(top + "/DESIGN.md").read()
mark = "<!-- bugs -->\n"
text = text[: text.index(mark) + len(mark)]
text += "\n| caught by | bug | needs |\n|---|---|---|\n"
for p, n, w in rows:
    text += "| %s | %s%s | %s |\n" % (p, n, " *" if n in missed else "", w.replace("|", "\\|"))
open(top + "/DESIGN.md", "w").write(text)
print(len(rows), "bugs,", len(missed), "missed at first")
