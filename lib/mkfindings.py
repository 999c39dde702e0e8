#!/usr/bin/env python3
"""Writes known-findings.txt: findings.in (recorded defects) and a fixed: line for every fix: commit of /repo."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
for l in open(os.path.join(V, "lib", "fixed_props.txt"), encoding="utf8"):
    if l.strip():
        p, s = l.strip().split(" ", 1)
        M[s] = p
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
bad = False
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [M[k] for k in M if s.startswith(k)]
    if len(p) != 1:
        print("no property for: " + s)
        bad = True
        continue
    out.append("fixed: property=%s %s %s" % (p[0], h, s))
head = open(os.path.join(V, "lib", "findings.in"), encoding="utf8").read()
open(os.path.join(V, "known-findings.txt"), "w", encoding="utf8").write(head + "\n".join(out) + "\n")
sys.exit(bad)
