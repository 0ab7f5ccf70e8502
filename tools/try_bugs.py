#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against it (and others with --all-of C10,C11).

usage: try_bugs.py [--also P,Q] [--tier T] [ID...]
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
also, tier = [], "quick"
while args and args[0].startswith("--"):
    o, v = args[0], args[1]
    args = args[2:]
    if o == "--also":
        also = v.split(",")
    if o == "--tier":
        tier = v
res = os.path.join(V, "build", "bugs.json")
seen = json.load(open(res)) if os.path.exists(res) else {}
both = {d: os.path.join(V, x, d) for x in ("seeded-fixes", "seeded") if os.path.isdir(os.path.join(V, x)) for d in sorted(os.listdir(os.path.join(V, x)))}
for d in args or both:
    p = both[d]
    prop = json.load(open(p + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout == ""
    subprocess.run(["git", "-C", "/repo", "apply", p + "/patch.diff"], check=True)
    try:
        for c in [prop] + also:
            t = time.time()
            r = subprocess.run([V + "/check.py", c, tier], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            seen.setdefault(d, {})[c] = "caught" if caught else f"exit {r.returncode}"
            print(d, c, "caught" if caught else f"MISSED ({r.returncode}) {r.stdout[-600:] if r.returncode else ''}", f"{time.time() - t:.0f}s", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    json.dump(seen, open(res, "w"), indent=1)
