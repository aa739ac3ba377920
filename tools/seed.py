"""Development helper (no check uses it): writes seeded/<id>/, confirms the planted bug in a scratch copy, runs the check.

usage: seed.py FILE.py [ID...]     FILE.py calls seed(...) for each bug; options --nocheck, --checkonly
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.environ.get("SEED_ROOT", "/verif")
CHECK = os.environ.get("SEED_CHECK")  # a clone of /verif whose harness depends on the scratch copy
SCR = "/tmp/seedrepo"
SEEDS = {}
DEMO = r'''#!/bin/bash
# usage: run with cwd = the repository; exit 0: behaviour as promised, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust_road_router = { path = "$repo/engine" @FEAT@ }
[workspace]
[profile.dev]
debug = 0
EOF
cd "$t" || exit 9
export CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}"
cargo build --offline -q 2> "$t/log" || { tail -20 "$t/log"; exit 8; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
DENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2023-04-15", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="1", CARGO_NET_OFFLINE="true")
B = "/root/.rustup/toolchains/nightly-2023-02-01-x86_64-unknown-linux-gnu/bin/"
DENV.update(RUSTC=B + "rustc", RUSTDOC=B + "rustdoc")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def seed(id, prop, edits, demo, needs, breaks, feat=""):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, feat=feat)


def prepare():
    if not os.path.exists(SCR):
        subprocess.check_call(["git", "clone", "-q", "/repo", SCR])
        subprocess.check_call("cp -a /repo/target " + SCR + "/", shell=True)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SCR, SCR))


def confirm(id, s):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    sh("git -C %s checkout -q -- ." % SCR)
    for f, old, new in s["edits"]:
        p = os.path.join(SCR, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit of %s matches %d times" % (f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SCR).stdout)
    open(d + "/demo.rs", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", s["feat"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", cwd=SCR, env=DENV)
    base = json.load(open("/opt/vp/BASELINE.json"))
    if "error: could not compile" in r.stdout or "error[E" in r.stdout:
        return "does not compile: " + "\n".join(re.findall(r"^error.*(?:\n .*)*", r.stdout, re.M)[:5])
    bad = [x for x in re.findall(r"^test (\S+).*FAILED$", r.stdout, re.M)]
    stable = json.dumps(base)
    bad = [x for x in bad if x.split("::")[-1] in stable]
    if bad:
        return "tests fail: %s" % bad
    e = dict(os.environ, DEMO_TARGET="/tmp/seedtarget")
    r = sh(d + "/demo.sh", cwd=SCR, env=e)
    if r.returncode == 0 or r.returncode in (8, 9):
        return "demo does not fail with the patch: rc %d %s" % (r.returncode, r.stdout[-1500:])
    print("   with patch: rc", r.returncode, r.stdout.strip()[-300:])
    sh("git -C %s checkout -q -- ." % SCR)
    r = sh(d + "/demo.sh", cwd=SCR, env=e)
    if r.returncode:
        return "demo fails without the patch: rc %d %s" % (r.returncode, r.stdout[-1500:])
    return None


def check(id, s):
    d = os.path.join(ROOT, "seeded", id)
    repo = SCR if CHECK else "/repo"
    if sh("git -C %s status --porcelain -uno" % repo).stdout.strip():
        return repo + " not clean"
    r = sh("git -C %s apply %s/patch.diff" % (repo, d))
    if r.returncode:
        return "patch does not apply: " + r.stdout
    try:
        r = sh("python3 run.py %s quick" % s["prop"], cwd=CHECK or ROOT)
    finally:
        sh("git -C %s checkout -q -- ." % repo)
    v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    tail = r.stdout.strip().splitlines()[-1:]
    m = re.findall(r"^  (h_\w+): (.*)$", r.stdout, re.M)
    return ("CAUGHT " if r.returncode == 1 and v else "MISSED rc=%d " % r.returncode) + str(m[:2]) + " " + str(tail)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    exec(compile(open(a[0]).read(), a[0], "exec"))
    ids = a[1:] or list(SEEDS)
    prepare()
    for i in ids:
        if "--checkonly" not in sys.argv:
            e = confirm(i, SEEDS[i])
            print(i, "confirmed" if e is None else "REJECTED " + e, flush=True)
            if e:
                shutil.rmtree(os.path.join(ROOT, "seeded", i), ignore_errors=True)
                continue
        if "--nocheck" not in sys.argv:
            print(i, check(i, SEEDS[i]), flush=True)
