#!/usr/bin/env python3
"""Writes /verif/known_findings.json: what was repaired in /repo, and what was not (never run by a check)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
findings = []
FIX = """A02 fb64f9a|A04 a614c06|A04 0eda7e6|E01 4b51c2e|M01 ae71e72|M01 fcf4c0e|H04 d6d799f|H04 7a65a6d|F08 ee7f441|F07 ec5d2db
F05 a828370|F05 b9228f1|F07 9c13dc4|U01 efebbb3|A03 d58c148|A03 5494099|L01 bcad4c0|S01 74e9205|A01 0e2016b|D01 23a4786|F02 9489044
F05 25bd9b6|C03 126ad11|N01 2a27d0d|F07 a16b5f9|F08 9e99aa1|F03 9597eaf|C01 9597eaf|F07 aa79a0d|M02 917347e|L03 c3b6f5d|L03 851d453
U01 28bd63e|U01 d42af92|U01 e22dbd9|U01 efc9395|I01 243901b|I01 04ffa6b|L03 8ca33f2|L01 3df41fb|M02 bbc11bb|F02 bbc11bb""".replace("\n", "|").split("|")
fixed = []
for l in FIX:
    p, c = l.split()
    subj, body = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s%n%b", c], text=True).split("\n", 1)
    fixed.append("fixed: property=%s %s %s%s" % (p, c, subj[len("fix: "):], " -- " + " ".join(body.split()) if body.strip() else ""))
json.dump(dict(findings=findings, fixed=fixed), open(os.path.join(HERE, "..", "known_findings.json"), "w"), indent=1)
