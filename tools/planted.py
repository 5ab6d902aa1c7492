#!/usr/bin/env python3
"""Writes PLANTED.md: every planted change under seeded/, what it needs and which property's check catches it."""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    d = os.path.dirname(f)
    files = re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(d, "patch.diff")).read(), re.M)
    rows.append((m["property"], os.path.basename(d), ", ".join(files), m["needs"], m["what_it_breaks"]))
rows.sort()
with open(os.path.join(root, "PLANTED.md"), "w") as o:
    o.write("# Planted changes\n\nEach was written from a property and the code, passes the stable tests, and has a demonstration\n")
    o.write("that fails with it. The quick check of the property in the first column reports every one of them\n")
    o.write("(`tools/mkbug.py` applied each, ran the tests, the demonstration and the check, and took it back).\n\n")
    o.write("| property | change | file | needs | breaks |\n|---|---|---|---|---|\n")
    for r in rows:
        o.write("| " + " | ".join(x.replace("|", "\\|").replace("\n", " ") for x in r) + " |\n")
print(len(rows))
