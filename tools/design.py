#!/usr/bin/env python3
"""Fills the generated parts (CASES, DEFECTS, CATCHES) of DESIGN.md from tools/DESIGN.in."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(HERE + "/tools/DESIGN.in").read()


def cases(m):
    s = open("%s/harness/props/%s.cpp" % (HERE, m.group(1))).read()
    g = re.search(r"QUICK_CASES = (\d+), THOROUGH_CASES = (\d+)", s)
    return "%s / %s" % g.groups()


t = re.sub(r"CASES:(C\d\d)", cases, t)
d = []
for l in open(HERE + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        d.append("* %s (`%s`): %s" % m.groups())
    m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
    if m:
        d.append("* %s, not repaired (`%s`): %s" % m.groups())
t = t.replace("DEFECTS\n", "\n".join(d) + "\n")
c = ["| planted change | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["needs"].split()).replace("|", "/")))
t = t.replace("CATCHES\n", "\n".join(c) + "\n")
open(HERE + "/DESIGN.md", "w").write(t)
