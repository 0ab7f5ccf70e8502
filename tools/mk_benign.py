#!/usr/bin/env python3
"""Makes /verif/benign/<id>.diff out of edits that keep the behaviour (BENIGN: {id: [(file, old, new)...]} in a python file).

Each is checked to build and pass the tests in a scratch copy.
usage: mk_benign.py FILE [ID...]
"""
import os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = runpy.run_path(sys.argv[1])["BENIGN"]
S = "/tmp/benign-scratch"
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(S):
    sh("cp", "-a", "/repo", S)
sh("git", "-C", S, "fetch", "-q", "/repo", "HEAD")
sh("git", "-C", S, "reset", "-q", "--hard", "FETCH_HEAD")
for i in sys.argv[2:] or B:
    sh("git", "-C", S, "checkout", "-q", "--", ".")
    ok = True
    for f, old, new in B[i]:
        p = os.path.join(S, "crates", f)
        t = open(p).read()
        if t.count(old) != 1:
            print(i, f, "found", t.count(old), "times:", old[:80]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok:
        continue
    r = sh("cargo", "test", "--offline", "-q", cwd=S, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"))
    if r.returncode:
        print(i, "FAILS\n", r.stdout[-3000:]); continue
    d = sh("git", "-C", S, "diff").stdout
    open(f"{V}/benign/{i}.diff", "w").write(d)
    print(i, "ok", flush=True)
sh("git", "-C", S, "checkout", "-q", "--", ".")
