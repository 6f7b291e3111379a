#!/usr/bin/env python3
"""addfixed.py RANGE [pattern=ID ...] default=ID: append 'fixed:' lines for the /repo commits of a range"""
import subprocess, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rng, rules = sys.argv[1], [a.split("=") for a in sys.argv[2:]]
have = open(f"{H}/known_findings.txt").read()
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", rng], text=True).splitlines():
    h, m = l.split(" ", 1)
    if h in have or not m.startswith("fix:"):
        continue
    pid = next(v for k, v in rules if k == "default" or k in m)
    open(f"{H}/known_findings.txt", "a").write(f"fixed: property={pid} {h} {m[5:]}\n")
