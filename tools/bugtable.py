#!/usr/bin/env python3
"""Prints the planted-bug table for DESIGN.md from a log of seedbug.py runs (argument: log file)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hit, cur = {}, None
for l in open(sys.argv[1]):
    m = re.match(r"(c\d\d\S*): original", l)
    if m: cur = m.group(1)
    m = re.match(r"  (C\d\d) rc=(\d)", l)
    if m: hit.setdefault(cur, {})[m.group(1)] = m.group(2)
print("| bug | needs | caught by |\n|---|---|---|")
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % b))
    c = hit.get(b, {})
    print("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), ", ".join(k for k in sorted(c) if c[k] == "1") or "?"))
