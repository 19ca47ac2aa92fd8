#!/usr/bin/env python3
"""Writes the tables of /verif/DESIGN.md (between the markers) from the committed json files and seeded/."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
CAUGHT = json.load(open(os.path.join(V, "harness", "caught.json")))
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = m.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), CAUGHT.get(i, "?")))
fixed = ["| property | commit | what failed |", "|---|---|---|"]
for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    p, c, w = re.match(r"fixed: property=(\w+) (\w+) (.*)", f, re.S).groups()
    fixed.append("| %s | %s | %s |" % (p, c, w.replace("|", "/")))
s = open(os.path.join(V, "DESIGN.md")).read()
for name, t in (("SEEDED", rows), ("FIXED", fixed)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(t) + "\n" + m.group(2), s, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
