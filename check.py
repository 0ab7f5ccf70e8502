#!/usr/bin/env python3
"""Builds the harness that decides a property from /repo's working tree, runs it, writes evidence.

usage: check.py PROPERTY [quick|thorough]
       check.py build            (everything, as setup does)
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(BUILD, "replays")

ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    RUSTUP_TOOLCHAIN="stable",
    CARGO_NET_OFFLINE="true",
    CARGO_INCREMENTAL="0",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
    RUST_BACKTRACE="0",
)
for k in list(ENV):
    if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC"):
        del ENV[k]
ENV["MCSTD"] = os.path.join(BUILD, "mcstd")

CONC = {"C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37"}
SEQ = {"C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C25", "C26", "C27"}
WGPU = {"C22", "C26"}  # what needs the wgpu backend
INPUTS = {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C20"}
PROGS = {"C07", "C08"}
EXTRA = PROGS | {"C24"}
DIRECT = ["seq", "seq-nowgpu", "inputs", "inputs-noglam"]


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            if os.path.basename(f) == "Cargo.lock" and f.startswith(VERIF):
                continue
            h.update(f.encode())
            h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def repo_hash():
    return tree_hash(REPO + "/crates", REPO + "/Cargo.toml")


def stamp_is(path, value):
    try:
        return open(path).read() == value
    except OSError:
        return False


def stamp(path, value):
    with open(path, "w") as f:
        f.write(value)


def run(cmd, cwd, env=None, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def forget(target, names):
    """Make cargo rebuild these crates, whatever the timestamps of their sources say."""
    for profile in ("debug", "rel"):
        fp = os.path.join(target, profile, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.rsplit("-", 1)[0] in names:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def cargo(crate, target, env=None, extra=(), forget_names=()):
    """Build a harness crate when what it is made of has changed."""
    tdir = os.path.join(BUILD, target)
    os.makedirs(tdir, exist_ok=True)
    h = repo_hash() + tree_hash(os.path.join(VERIF, crate), os.path.join(VERIF, "shims"), os.path.join(VERIF, "mcstd"), os.path.join(VERIF, "conc"), os.path.join(VERIF, "seq"), os.path.join(VERIF, "inputs"), os.path.join(VERIF, "rustc-wrap.sh")) + repr(extra)
    st = os.path.join(tdir, "stamp." + crate.replace("/", "_"))
    if stamp_is(st, h):
        return None
    forget(tdir, {"craballoc", "crabslab", "crabslab-derive", crate.split("/")[-1], "async-channel", "wgpu", *forget_names})
    e = dict(env or ENV)
    e["CARGO_TARGET_DIR"] = tdir
    r = run(["cargo", "build", "--offline", *extra], os.path.join(VERIF, crate), e)
    if r.returncode != 0:
        return r.stdout
    stamp(st, h)
    return None


def build_mcstd():
    out = ENV["MCSTD"]
    os.makedirs(out, exist_ok=True)
    h = tree_hash(os.path.join(VERIF, "mcstd"))
    v = run(["rustc", "-vV"], VERIF).stdout
    if stamp_is(os.path.join(out, "stamp"), h + v):
        return
    e = dict(ENV)
    e["RUSTC_BOOTSTRAP"] = "1"
    src = os.path.join(VERIF, "mcstd", "src")
    for args in (
        ["--crate-name", "mcstd", os.path.join(src, "lib.rs")],
        ["--crate-name", "mccore", os.path.join(src, "core_lib.rs"), "--extern", f"mcstd={out}/libmcstd.rlib"],
    ):
        r = run(["rustc", "--edition", "2021", "-C", "opt-level=3", "-C", "debuginfo=line-tables-only", "--crate-type", "rlib", "--out-dir", out, *args], VERIF, e)
        if r.returncode != 0:
            die("mcstd does not build:\n" + r.stdout)
    # everything compiled against the previous one is of no use
    shutil.rmtree(os.path.join(BUILD, "conc"), ignore_errors=True)
    stamp(os.path.join(out, "stamp"), h + v)


def build_conc():
    build_mcstd()
    e = dict(ENV)
    e["RUSTC_WRAPPER"] = os.path.join(VERIF, "rustc-wrap.sh")
    err = cargo("conc", "conc", e)
    if err:
        return err
    return cargo("conc-plain", "plain")


def evidence(prop, tier, level, coverage, t0, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = dict(
        property=prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1")),
        level=level,
        coverage=coverage,
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=violations,
    )
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("KNOWN-FINDING:") and f"property={prop} " in l:
                out.append(l.strip())
    except OSError:
        pass
    return out


MISTAKES = (2, 101)  # exit codes of a harness that mean a mistake of ours rather than a verdict


def result(prop, tier, t0, out, rc, assumptions):
    cov, viol = open(out).read().strip().rsplit("\n", 1)
    evidence(prop, tier, "model_checking", json.loads(cov), t0, int(viol), assumptions)
    return rc


def violation(prop, replay):
    print(f"VIOLATION property={prop} replay={replay}", flush=True)


def write_replay(name, text):
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def check_conc(prop, tier, t0):
    err = build_conc()
    if err:
        die("the interleaving harness does not build:\n" + err[-6000:])
    out = os.path.join(BUILD, f"{prop}.out")
    p = subprocess.run(
        [os.path.join(BUILD, "conc/debug/conc"), "check", prop, tier, REPLAYS, out, os.path.join(BUILD, "plain/debug/conc-plain")],
        cwd=VERIF, env=ENV,
    )
    if p.returncode not in (0, 1):
        die(f"the interleaving harness failed with {p.returncode}")
    return result(prop, tier, t0, out, p.returncode, [
        "sequential consistency except for relaxed/acquire/release loads in the programs with stale values",
        "the shims of std::sync and async-channel behave as the originals (serial traces are compared with the originals on every run)",
    ])


REL = ("--profile", "rel")  # without debug assertions and overflow checks


def exe(crate):
    if crate.endswith("-rel"):
        return os.path.join(BUILD, crate, "rel", crate[:-4])
    return os.path.join(BUILD, crate, "debug", crate)


def build_both(crate):
    """As in a debug build and as in a release build."""
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(2) as pool:
        a = pool.submit(cargo, crate, crate)
        b = pool.submit(cargo, crate, crate + "-rel", None, REL)
        return a.result() or b.result()


def check_direct(crate, prop, tier, t0, assumptions):
    """A harness that runs the real code directly, as a debug and then, less deeply, as a release build."""
    err = build_both(crate)
    if err and crate == "seq" and prop not in WGPU and build_both("seq-nowgpu") is None:
        # The code uses more of wgpu than the simulation has. That has nothing to do with this property.
        print("the simulation of wgpu does not suffice: checking without it")
        crate, err = "seq-nowgpu", None
        assumptions = assumptions + ["the wgpu backend was left out, as it does not build with the simulation"]
    if err:
        die(f"the harness {crate} does not build:\n" + err[-6000:])
    out = os.path.join(BUILD, f"{prop}.out")
    cov, viol = None, 0
    for c in (crate, crate + "-rel"):
        viol = run_direct(c, prop, tier, t0, out, assumptions)
        if viol is None:
            return 1
        part, viol = open(out).read().strip().rsplit("\n", 1)
        part = json.loads(part)
        if cov is None:
            cov = part
        else:
            # the same histories once more: no further states
            cov["transitions"] += part["transitions"]
            cov["traces_validated_against_impl"] += part["traces_validated_against_impl"]
            cov["release_build"] = {k: part[k] for k in ("states", "transitions", "traces_validated_against_impl")}
        if int(viol):
            break
    evidence(prop, tier, "model_checking", cov, t0, int(viol), assumptions)
    return 1 if int(viol) else 0


def run_direct(crate, prop, tier, t0, out, assumptions):
    """Runs one build. None if it died, which is a violation; when it dies of a signal, find what it was running."""
    exe_ = exe(crate)
    cur = os.path.join(BUILD, f"{prop}.cur")
    for f in (out, cur):
        if os.path.exists(f):
            os.unlink(f)
    e = dict(ENV, MC_SHALLOW="1") if crate.endswith("-rel") else ENV
    p = subprocess.run([exe_, "check", prop, tier, REPLAYS, out, cur], cwd=VERIF, env=e)
    if p.returncode in (0, 1):
        return p.returncode
    if p.returncode in MISTAKES or not os.path.exists(cur):
        die(f"the harness {crate} failed with {p.returncode}")
    # killed: by an abort (a panic in a destructor, an allocation of gigabytes) or a fault
    found = 0
    with open(cur, "rb") as f:
        data = f.read()
    slots = [data[i : i + 1024].split(b"\0", 1)[0].decode(errors="replace") for i in range(0, len(data), 1024)]
    replay = None
    for s in slots:
        if not s.strip() or found:
            continue
        path = write_replay(f"{prop}-crash.txt", f"{prop}\n{s}\n")
        try:
            r = run([exe_, "replay", path], VERIF, timeout=60)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode not in (0, *MISTAKES):
            print(r.stdout[-2000:])
            print(f"{prop}: this history ends in a crash or a failure ({r.returncode}): {s}")
            replay, found = path, 1
    if not found:
        die(f"the harness {crate} was killed ({p.returncode}) and no history it was running fails on its own")
    violation(prop, replay)
    evidence(prop, tier, "model_checking", dict(states=1, transitions=1, traces_validated_against_impl=1, samples=[s for s in slots if s][:3], note="the exploration ended with a crash of the code"), t0, 1, assumptions)
    return None


def check_progs(prop, tier, t0):
    sys.path.insert(0, os.path.join(VERIF, "progs"))
    import progs

    root = os.path.join(BUILD, "progs")
    os.makedirs(root, exist_ok=True)
    h = repo_hash() + tree_hash(os.path.join(VERIF, "progs"))
    st = os.path.join(root, f"stamp.{prop}.{tier}")
    changed = not stamp_is(st, h)
    n, steps, bad, trouble = progs.check(prop, tier, root, ENV, run, forget, changed)
    if trouble:
        die(trouble)
    if not bad:
        stamp(st, h)
    names = [x for x, _ in (progs.gen.layouts if prop == "C07" else progs.gen.definitions)(tier == "thorough")]
    cov = dict(states=n, transitions=steps, traces_validated_against_impl=n, samples=names[:: max(1, len(names) // 12)],
        note="states: definitions compiled; transitions: " + ("written, read and compared values of them" if prop == "C07" else "definitions checked by the compiler"))
    evidence(prop, tier, "model_checking", cov, t0, len(bad), ["the compiler"])
    for name, source, what in bad:
        print(f"{prop}: {name}: {what}")
        violation(prop, write_replay(f"{prop}-{name}.rs", f"// {prop}: {name}\n// " + what.replace("\n", "\n// ") + "\n" + source))
    return 1 if bad else 0


def digests(crate, tier):
    r = run([exe(crate), "digest", tier], VERIF)
    if r.returncode != 0:
        return None, r.stdout[-2000:]
    return r.stdout.splitlines(), None


def differences(a, b, tier, fine):
    """Compares the outcomes of two harnesses. Returns (compared, histories, differences)."""
    la, ea = digests(a, tier)
    lb, eb = digests(b, tier)
    if ea or eb:
        # the one that does not end is told from the one that does
        if (ea is None) == (eb is None):
            die(f"the histories fail in {a} and {b}:\n{ea}")
        return 0, 0, [f"the histories end in {b if ea else a} but not in {a if ea else b}:\n{ea or eb}"]
    out = []
    n = 0
    for x, y in zip(la, lb):
        n += int(x.split()[-2])
        if x == y:
            continue
        if not fine:
            # twice, because only what is the same each time can tell configurations apart
            if x in digests(a, tier)[0] and y in digests(b, tier)[0]:
                out.append(f"{a}: {x}\n{b}: {y}")
            continue
        k = x.split()[0]
        ra, ra2, rb, rb2 = (run([exe(c), "digest-one", k, tier], VERIF).stdout.splitlines() for c in (a, a, b, b))
        for p, p2, q, q2 in zip(ra, ra2, rb, rb2):
            if p == p2 and q == q2 and p != q:
                out.append(f"{a}: {p}\n{b}: {q}")
                break
    if len(la) != len(lb):
        out.append(f"{a} has {len(la)} sets of histories, {b} has {len(lb)}")
    return len(la), n, out


FEATURES = ["glam", "futures-lite", "async-channel", "bytemuck", "log", "snafu"]


def check_configs(prop, tier, t0):
    import itertools
    from concurrent.futures import ThreadPoolExecutor

    thorough = tier == "thorough"
    sets = [[]] + [[f] for f in FEATURES] + [FEATURES]
    if thorough:
        sets = [list(c) for r in range(len(FEATURES) + 1) for c in itertools.combinations(FEATURES, r)]
    configs = [",".join(s) for s in sets] + ["default", "alloc", "wgpu", "alloc-default"]
    if thorough:
        configs += [",".join(s + [a]) for s in sets if s for a in ("alloc", "wgpu")]
    tdir = os.path.join(BUILD, "configs")
    forget(tdir, {"craballoc", "crabslab", "crabslab-derive", "configs", "wgpu"})

    def build(features):
        r = run(["cargo", "check", "--offline", "--no-default-features", "--features", features], os.path.join(VERIF, "configs"), dict(ENV, CARGO_TARGET_DIR=tdir))
        return None if r.returncode == 0 else r.stdout

    def all_builds():
        return {c: build(c) for c in configs}

    with ThreadPoolExecutor(5) as pool:
        checks = pool.submit(all_builds)
        builds = {c: pool.submit(cargo, c, c) for c in DIRECT}
        failed = {c: e for c, e in checks.result().items() if e}
        builds = {c: b.result() for c, b in builds.items()}
    if len(failed) == len(configs):
        die("nothing builds:\n" + failed["default"][-6000:])
    if builds["seq"] and builds["seq-nowgpu"] or builds["inputs"] and builds["inputs-noglam"]:
        die("the harnesses do not build:\n" + "".join(b[-3000:] for b in builds.values() if b))
    bad = [(f"features-{i}", f"the crates do not build with the features [{c}] although they do with others:\n{e[-3000:]}") for i, (c, e) in enumerate(failed.items())]
    for c, e in builds.items():
        if e:
            bad.append((c, f"the harness {c} does not build, although it does in another configuration:\n{e[-3000:]}"))
    groups = histories = 0
    for a, b, fine in (("seq", "seq-nowgpu", True), ("inputs", "inputs-noglam", False)):
        if builds[a] or builds[b]:
            continue
        # all histories of these bounds take seconds
        n, h, diff = differences(a, b, "thorough" if thorough or not fine else "quick", fine)
        groups += n
        histories += h
        bad += [(f"{b}-{i}", "the outcomes differ:\n" + d) for i, d in enumerate(diff[:5])]
    cov = dict(states=len(configs) + groups, transitions=histories, traces_validated_against_impl=histories, samples=configs[:12],
        note="states: configurations built and groups of histories compared; transitions: histories and inputs whose outcomes were compared in two configurations")
    evidence(prop, tier, "model_checking", cov, t0, len(bad), ["wgpu is replaced by a simulation of it", "outcomes that differ from run to run in one configuration are not compared"])
    for name, what in bad:
        print(f"{prop}: {what}")
        violation(prop, write_replay(f"{prop}-{name}.txt", f"{prop}\n{what}\n"))
    return 1 if bad else 0


SEQ_ASSUMPTIONS = [
    "operations are executed one after the other; interleavings are covered by C30-C37",
    "the wgpu backend runs on a simulated wgpu 24 that enforces the validation rules of the calls craballoc makes",
]
INPUT_ASSUMPTIONS = ["values are taken from the stated boundary domains; types from the stated closed list"]


def main():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if len(sys.argv) < 2:
        die(__doc__)
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "build":
        err = build_conc() or "".join(filter(None, (build_both(c) if c in ("seq", "inputs") else cargo(c, c) for c in DIRECT)))
        if err:
            die(err)
        # these leave their build products behind
        for p in sorted(EXTRA):
            try:
                check_configs(p, "quick", t0) if p == "C24" else check_progs(p, "quick", t0)
            except SystemExit:
                pass
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    for k in known_findings(prop):
        print(k)
    sys.stdout.flush()
    if prop in CONC:
        return check_conc(prop, tier, t0)
    if prop in SEQ:
        return check_direct("seq", prop, tier, t0, SEQ_ASSUMPTIONS)
    if prop in INPUTS:
        return check_direct("inputs", prop, tier, t0, INPUT_ASSUMPTIONS)
    if prop in PROGS:
        return check_progs(prop, tier, t0)
    if prop == "C24":
        return check_configs(prop, tier, t0)
    die(f"unknown property {prop}")


if __name__ == "__main__":
    sys.exit(main())
