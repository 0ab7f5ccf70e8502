#!/usr/bin/env python3
"""Runs checks with changes that keep the behaviour; they have to stay quiet.

usage: try_benign.py [--checks C10,C11] [--each] [ID...]     (--each: one change at a time)
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
each = False
while args and args[0].startswith("--"):
    if args[0] == "--checks":
        checks = args[1].split(","); args = args[2:]
    else:
        each = True; args = args[1:]
ids = args or sorted(f[:-5] for f in os.listdir(V + "/benign"))
def sh(*a):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
groups = [[i] for i in ids]
if not each:
    # as many at a time as apply together
    rest, groups = ids, []
    while rest:
        g, left = [], []
        for i in rest:
            (g if sh("git", "-C", "/repo", "apply", f"{V}/benign/{i}.diff").returncode == 0 else left).append(i)
        sh("git", "-C", "/repo", "checkout", "-q", "--", ".")
        assert g, left
        groups.append(g); rest = left
bad = 0
for g in groups:
    assert sh("git", "-C", "/repo", "status", "--short").stdout == ""
    for i in g:
        assert sh("git", "-C", "/repo", "apply", f"{V}/benign/{i}.diff").returncode == 0
    try:
        print("with", *g, flush=True)
        for c in checks:
            t = time.time()
            r = sh(V + "/check.py", c, "quick")
            if r.returncode:
                bad += 1
                print("ALARM" if r.returncode == 1 else "NO ANSWER", c, g, r.stdout[-1500:], flush=True)
            else:
                print("  ", c, f"{time.time() - t:.0f}s", flush=True)
    finally:
        sh("git", "-C", "/repo", "checkout", "-q", "--", ".")
sys.exit(bad > 0)
