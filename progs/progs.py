"""Compiles and runs the definitions of gen.py: C07 (layouts) and C08 (names, generics, shapes)."""
import json, os, re, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen

CRATES = 8


def put(path, text):
    """Write when it differs, so that cargo does not rebuild for nothing."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def manifest(name, sub):
    return f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[dependencies]
rt = {{ path = "{HERE}/rt" }}
"""


def workspace(root, members):
    put(os.path.join(root, "Cargo.toml"), """[workspace]
resolver = "2"
members = [%s]

[profile.dev]
debug = 0
opt-level = 0
incremental = false

[profile.dev.package.rt]
opt-level = 1
[profile.dev.package.crabslab]
opt-level = 1
""" % ", ".join(f'"{m}"' for m in members))


def layout_crate(root, name, defs):
    d = os.path.join(root, name)
    put(os.path.join(d, "Cargo.toml"), manifest(name, ""))
    # one file per definition
    src = os.path.join(d, "src")
    want = {f"{n}.rs" for n, _ in defs} | {"mod.rs"}
    m = os.path.join(src, "m")
    if os.path.isdir(m):
        for f in os.listdir(m):
            if f not in want:
                os.unlink(os.path.join(m, f))
    for n, t in defs:
        put(os.path.join(m, n + ".rs"), t)
    put(os.path.join(m, "mod.rs"), "".join(f"pub mod {n};\n" for n, _ in defs))
    put(os.path.join(src, "main.rs"), gen.INNER + "mod m;\nfn main() {\n" + "".join(f"    rt::guard(\"{n}\", m::{n}::check);\n" for n, _ in defs) + "    rt::done();\n}\n")


def shape_crate(root, name, defs):
    d = os.path.join(root, name)
    put(os.path.join(d, "Cargo.toml"), manifest(name, ""))
    src = os.path.join(d, "src")
    want = {f"{n}.rs" for n, _ in defs} | {"lib.rs"}
    if os.path.isdir(src):
        for f in os.listdir(src):
            if f not in want:
                os.unlink(os.path.join(src, f))
    for n, t in defs:
        put(os.path.join(src, n + ".rs"), t)
    put(os.path.join(src, "lib.rs"), gen.HEAD + "".join(f"pub mod {n};\n" for n, _ in defs))


def errors(out):
    """Errors per definition, from cargo's json messages. None stands for errors elsewhere."""
    found = {}
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message":
            continue
        msg = m["message"]
        if msg["level"] != "error" or not msg["spans"]:
            continue
        name = None
        for s in sorted(msg["spans"], key=lambda s: not s["is_primary"]):
            while s:
                f = s["file_name"]
                b = os.path.basename(f)[:-3]
                if "/src/" in f and b not in ("lib", "main", "mod") and "/rt/" not in f and "/crates/" not in f and "rustlib" not in f:
                    name = name or b
                s = (s.get("expansion") or {}).get("span")
        found.setdefault(name, []).append(msg["rendered"] or msg["message"])
    return found


def check(prop, tier, root, env, run, forget_fn, changed):
    """Returns (number of definitions, steps, [(name, source, what)], trouble or None).

    `changed`: whether the code has changed since the last run."""
    thorough = tier == "thorough"
    defs = (gen.layouts if prop == "C07" else gen.definitions)(thorough)
    by_name = dict(defs)
    assert len(by_name) == len(defs)
    root = os.path.join(root, f"{prop}-{tier}")
    parts = [defs[i::CRATES] for i in range(CRATES)]
    names = [f"p{i}" for i in range(CRATES)]
    make = layout_crate if prop == "C07" else shape_crate
    for n, p in zip(names, parts):
        make(root, n, p)
    # the control: whether anything compiles at all
    make(root, "control", [])
    make(root, "single", [])
    workspace(root, names + ["control", "single"])
    target = os.path.join(os.path.dirname(root), "target")
    env = dict(env, CARGO_TARGET_DIR=target)
    if changed:
        forget_fn(target, {"crabslab", "crabslab-derive", "rt", "control", "single", *names})
    verb = "build" if prop == "C07" else "check"

    def cargo(pkgs):
        return run(["cargo", verb, "--offline", "--keep-going", "--message-format=json", *[x for p in pkgs for x in ("-p", p)]], root, env)

    r = cargo(["control"])
    if r.returncode != 0:
        return len(defs), 0, [], "the control program does not build:\n" + readable(r.stdout)
    r = cargo(names)
    bad = []
    if r.returncode != 0:
        found = errors(r.stdout)
        suspects = [n for n in found if n in by_name][:5]
        for n in suspects:
            make(root, "single", [(n, by_name[n])])
            one = cargo(["single"])
            if one.returncode != 0:
                bad.append((n, by_name[n], "it does not compile:\n" + "\n".join(x for v in errors(one.stdout).values() for x in v)[:3000]))
        make(root, "single", [])
        if not bad:
            return len(defs), 0, [], "the programs do not build:\n" + readable(r.stdout)
        return len(defs), len(defs), bad, None
    steps = len(defs)
    if prop == "C07":
        steps = 0
        for n in names:
            p = run([os.path.join(target, "debug", n)], root, env)
            done = False
            for l in p.stdout.splitlines():
                m = re.match(r"FAIL (\w+): (.*)", l)
                if m:
                    bad.append((m[1], by_name[m[1]], m[2]))
                if l.startswith("STEPS "):
                    steps += int(l.split()[1])
                    done = True
            if not done and not bad:
                return len(defs), steps, [], f"{n} failed with {p.returncode}:\n" + p.stdout[-3000:]
    return len(defs), steps, bad, None


def readable(out):
    lines = []
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                lines.append(m["message"]["rendered"] or "")
        else:
            lines.append(l)
    return "\n".join(lines)[-6000:]
