#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and keeps them in /verif/seeded.

usage: plant.py FILE.py [ID...]       FILE.py has a list BUGS of dicts: id, property, file, edits, needs, breaks, demo (main.rs)
Optional: deps (lines of Cargo.toml), shim (True for the simulated wgpu beside the demo), script (instead of the usual demo.sh).
"""
import json, os, re, shutil, subprocess, sys, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
BASE = "8808646"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", PATH="/root/.cargo/bin:" + os.environ["PATH"])

SCRIPT = """#!/bin/sh
# Builds main.rs beside this file against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
PATH=/root/.cargo/bin:$PATH
RUSTUP_TOOLCHAIN=stable
CARGO_NET_OFFLINE=true
export PATH RUSTUP_TOOLCHAIN CARGO_NET_OFFLINE
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
%(shimcopy)scat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
[profile.dev]
debug = 0
incremental = false
%(extra)s
END
cd "$dir" || exit 9
cargo build -q --offline %(cargo)s|| exit 8
timeout %(timeout)d ./target/%(profile)s/demo
"""
DEPS = 'crabslab = { path = "$repo/crates/crabslab" }\ncraballoc = { path = "$repo/crates/craballoc", default-features = false }'


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def base_lines_changed(diff, files):
    """Whether the patch removes or replaces a line of the original repository."""
    for f in files:
        orig = sh(["git", "show", f"{BASE}:{f}"], "/repo").stdout.splitlines()
        blame = sh(["git", "blame", "-s", f], "/repo").stdout.splitlines()
        old = {i + 1 for i, b in enumerate(blame) if b.startswith("^")}
        cur = None
        here = False
        for l in diff.splitlines():
            if l.startswith("+++ "):
                here = l.endswith("/" + f)
            m = re.match(r"@@ -(\d+)", l)
            if m:
                cur = int(m[1])
                continue
            if cur is None or not here or l.startswith(("---", "+++")):
                continue
            if l.startswith("-"):
                if cur in old:
                    return True
                cur += 1
            elif not l.startswith("+"):
                cur += 1
    return False


def plant(b):
    sh(["git", "checkout", "-q", "--", "."], W)
    files = set()
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"], *e)
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"the text to replace occurs {s.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
        files.add(f)
    diff = sh(["git", "diff"], W).stdout
    # those that only undo or change a fix of ours are kept apart
    d = os.path.join(V, "seeded" if base_lines_changed(diff, files) else "seeded-fixes", b["id"])
    tmp = d + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shimcopy = extra = ""
    deps = b.get("deps", DEPS)
    if b.get("shim"):
        shutil.copytree(os.path.join(V, "shims", "wgpu"), os.path.join(tmp, "wgpu"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        shimcopy = 'cp -r "$here/wgpu" "$dir/wgpu"\n'
        extra = '[patch.crates-io]\nwgpu = { path = "wgpu" }'
        deps = deps.replace(', default-features = false', '') + '\nwgpu = "24.0.0"'
    script = b.get("script") or SCRIPT % dict(shimcopy=shimcopy, deps=deps, extra=extra, timeout=b.get("timeout", 60), cargo="--release " if b.get("release") else "", profile="release" if b.get("release") else "debug")
    if b.get("demo"):
        open(os.path.join(tmp, "main.rs"), "w").write(b["demo"])
    open(os.path.join(tmp, "demo.sh"), "w").write(script)
    os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
    open(os.path.join(tmp, "patch.diff"), "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(tmp, "meta.json"), "w"), indent=1)
    problem = None
    r = sh(["cargo", "test", "--offline", "-q", "--workspace", "--lib"], W)
    if r.returncode != 0:
        problem = "build or tests fail:\n" + r.stdout[-2500:]
    if not problem:
        r = sh(["sh", os.path.join(tmp, "demo.sh")], W)
        if r.returncode == 0:
            problem = "the demo does not fail with the patch"
        elif r.returncode in (8, 9) and not b.get("compile"):
            problem = "the demo does not build with the patch:\n" + r.stdout[-2500:]
        fail = re.sub(r"stack backtrace:.*", "", r.stdout, flags=re.S)[-300:]
    sh(["git", "checkout", "-q", "--", "."], W)
    if not problem:
        for _ in range(2 if b.get("stress") else 1):
            r = sh(["sh", os.path.join(tmp, "demo.sh")], W)
            if r.returncode != 0:
                problem = "the demo fails without the patch:\n" + r.stdout[-2500:]
    if problem:
        shutil.rmtree(tmp)
        return problem
    shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    print(f"{b['id']}: kept. {fail.strip().splitlines()[:3]}", flush=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("target"))
    sh(["git", "fetch", "-q", "/repo", "HEAD"], W)
    sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], W)
    for b in bugs:
        if only and b["id"] not in only or not only and any(os.path.isdir(os.path.join(V, x, b["id"])) for x in ("seeded", "seeded-fixes")):
            continue
        p = plant(b)
        if p:
            print(f"{b['id']}: NOT KEPT: {p}", flush=True)


main()
