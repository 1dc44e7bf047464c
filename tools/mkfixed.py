#!/usr/bin/env python3
"""Writes the 'fixed:' section of known-findings.txt from /repo's fix commits (property given in tools/fixprops.txt)."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(ROOT, "tools", "fixprops.txt")):
    l = l.strip()
    if l:
        p, s = l.split(" ", 1); props[s] = p
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
out = ["# Defects of the code under test. 'fixed' entries suppress nothing; 'known' entries name one construct each."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    if s not in props: print("no property for:", s); continue
    out.append("fixed: property=%s %s %s" % (props[s], h, s))
kn = os.path.join(ROOT, "tools", "known.txt")
if os.path.exists(kn):
    out += [x.rstrip("\n") for x in open(kn)]
open(os.path.join(ROOT, "known-findings.txt"), "w").write("\n".join(out) + "\n")
